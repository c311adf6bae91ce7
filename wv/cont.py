"""Histories of container operations with a model: arrays as lists, tables as
maps, both with reference semantics."""
from .lang import strlit

FAM = 70665430        # = 2*5*11*17*23*31*53: collides in every small table
STR = [b'', b'a', b'b', b'key', b'k0', b'k1', b'k2', b'k3', b'name', b'x y', b'\xe9\xff', b'longer key with spaces in it', b'count', b'0', b'1']
WORDS = ['a', 'b', 'key', 'name', 'k0', 'k1', 'k2', 'k3', 'count']


class Arr:
    def __init__(self, v):
        self.v = v


class Tab:
    def __init__(self, v):
        self.v = v        # {key: value}, key int or bytes


def lit(v):
    return str(v) if isinstance(v, int) else strlit(v)


def dstr(b):
    o = ''
    for c in b:
        o += chr(c) if 32 <= c <= 126 and c not in (34, 92) else '\\x%02x' % c
    return '"' + o + '"'


def dump(v, d=0):
    if d > 8:
        return '...'
    if isinstance(v, int):
        return 'i%d' % v
    if isinstance(v, bytes):
        return dstr(v)
    if isinstance(v, Arr):
        return '[' + ','.join(dump(x, d + 1) for x in v.v) + ']'
    it = sorted((dump(k, d + 1) + ':' + dump(x, d + 1)).encode('latin-1') for k, x in v.v.items())
    return '{' + b','.join(it).decode('latin-1') + '}'


def reach(a, b):
    """a reachable from b"""
    if a is b:
        return True
    if isinstance(b, Arr):
        return any(reach(a, x) for x in b.v)
    if isinstance(b, Tab):
        return any(reach(a, x) for x in b.v.values())
    return False


def depth(v):
    if isinstance(v, Arr):
        return 1 + max([depth(x) for x in v.v] or [0])
    if isinstance(v, Tab):
        return 1 + max([depth(x) for x in v.v.values()] or [0])
    return 0


def size(v):
    return len(v.v)


def canon(log):
    """lines between the "<" and ">" markers carry no order"""
    out, grp = [], None
    for l in log.split('\n'):
        if l == '"<"':
            grp = []
        elif l == '">"' and grp is not None:
            out += ['<'] + sorted(grp) + ['>']
            grp = None
        elif grp is not None:
            grp.append(l)
        else:
            out.append(l)
    return '\n'.join(out + (grp or []))


def w32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v & (1 << 31) else v


class History:
    def __init__(self, s, arrays, tables, nops):
        self.s, self.src, self.log = s, [], []
        self.vars = {}
        self.kinds = ['a'] * arrays + ['t'] * tables
        self.nops = nops
        self.n = 0
        self.xn = 0
        self.tmps = set()
        self.classes = set()

    # -- pieces
    def emit(self, t):
        self.src.append(t)

    def tmp(self, v):
        self.xn = (self.xn + 1) % 40
        n = 'x%d' % self.xn
        self.emit('%s%s = %s;' % ('' if n in self.tmps else 'var ', n, lit(v)))
        self.tmps.add(n)
        return n

    def scal(self):
        """(text, value) of a scalar"""
        s = self.s
        c = s.draw(7)
        if c <= 1:
            v = s.int(-5, 300)
            return str(v), v
        if c == 2:
            v = s.pick([0, -1, 2147483647, -2147483647, 65536, 100000])
            return str(v), v
        if c == 3:
            v = s.pick(STR)
            return strlit(v), v
        if c == 4:
            v = s.int(0, 99)
            return self.tmp(v), v
        if c == 5:
            v = s.int(0, 99)
            return '"j" + %d' % v, b'j%d' % v
        v = s.int(0, 99)
        return 'idf( %d )' % v, v

    def value(self, into):
        s = self.s
        if s.draw(5) == 4:
            n, o = self.loc(None)
            if not reach(into, o) and depth(o) < 4 and depth(into) < 4:
                return n, o
        if s.draw(6) == 5:
            e = self.element()
            if e and not isinstance(e[1], (Arr, Tab)):
                return e
        return self.scal()

    def idx(self, i):
        s = self.s
        c = s.draw(6)
        if c <= 1 or i < 0:
            return str(i)
        if c == 2:
            return self.tmp(i)
        if c == 3:
            return self.tmp(i - 1) + ' + 1'
        if c == 4:
            return 'idf( %d )' % i
        j = self.xn = (self.xn + 1) % 30
        self.emit('xa[%d] = %d;' % (j, i))
        return 'xa[%d]' % j

    def newkey(self):
        s = self.s
        c = s.draw(8)
        if c <= 1:
            return s.int(-3, 20)
        if c == 2:
            return w32(s.int(-12, 18) * FAM)
        if c == 3:
            return s.pick([2147483647, -2147483647, 65535, 65536, 49157, 97 * 193])
        if c <= 6:
            return s.pick(STR)
        return b'gen%d' % s.int(0, 40)

    def key(self, k):
        """text for key k"""
        s = self.s
        c = s.draw(5)
        if c <= 1:
            return lit(k)
        if c == 2:
            return self.tmp(k)
        if c == 3:
            return 'idf( %s )' % lit(k)
        if isinstance(k, bytes) and k.startswith(b'gen'):
            return '"gen" + %s' % k[3:].decode()
        return lit(k)

    def loc(self, kind):
        """(text, object): a container reachable from a variable"""
        s = self.s
        names = [n for n in sorted(self.vars) if kind is None or self.reaches(self.vars[n], kind)]
        n = s.pick(names)
        o = self.vars[n]
        t = n
        for _ in range(9):
            nxt = self.subs(o, kind)
            if not nxt:
                break
            if self.isk(o, kind) and not s.draw(2):
                break
            sel, o2 = s.pick(nxt)
            if isinstance(o, Arr):
                t += '[%s]' % self.idx(sel)
            elif isinstance(sel, bytes) and sel.decode('latin-1') in WORDS and sel != b'count' and s.draw(2):
                t += '.' + sel.decode()
            else:
                t += '[%s]' % self.key(sel)
            o = o2
        if not self.isk(o, kind):
            return n, self.vars[n]
        return t, o

    def isk(self, o, kind):
        return kind is None and isinstance(o, (Arr, Tab)) or kind == 'a' and isinstance(o, Arr) or kind == 't' and isinstance(o, Tab)

    def reaches(self, o, kind):
        if self.isk(o, kind):
            return True
        return bool(self.subs(o, kind))

    def subs(self, o, kind):
        it = enumerate(o.v) if isinstance(o, Arr) else o.v.items()
        return [(k, x) for k, x in it if isinstance(x, (Arr, Tab)) and self.reaches(x, kind)]

    def element(self):
        """(text, value) of an existing element"""
        s = self.s
        t, o = self.loc(None)
        if not o.v:
            return None
        if isinstance(o, Arr):
            i = s.draw(len(o.v))
            return '%s[%s]' % (t, self.idx(i)), o.v[i]
        k = s.pick(sorted(o.v, key=repr))
        if isinstance(k, bytes) and k.decode('latin-1') in WORDS and k != b'count' and s.draw(2):
            return '%s.%s' % (t, k.decode()), o.v[k]
        return '%s[%s]' % (t, self.key(k)), o.v[k]

    def literal(self, kind, d=0):
        s = self.s
        if kind == 'a':
            ts, vs = [], []
            for _ in range(s.int(1, 6)):
                if d < 2 and s.draw(6) == 5:
                    t, v = self.literal(s.pick('at'), d + 1)
                else:
                    t, v = self.scal()
                ts.append(t); vs.append(v)
            return '{ ' + ', '.join(ts) + ' }', Arr(vs)
        ts, vs = [], {}
        for _ in range(s.int(1, 6)):
            k = self.newkey()
            if k in vs:
                continue
            if d < 2 and s.draw(6) == 5:
                t, v = self.literal(s.pick('at'), d + 1)
            else:
                t, v = self.scal()
            ts.append(lit(k) + ': ' + t)
            vs[k] = v
        return '{ ' + ', '.join(ts) + ' }', Tab(vs)

    # -- program
    def build(self):
        s = self.s
        for i, k in enumerate(self.kinds):
            n = 'abcdefgh'[i]
            if k == 'a' and s.draw(3) == 2:
                z = s.int(1, 40)
                self.emit('var %s[%s];' % (n, z))
                self.vars[n] = Arr([0] * z)
            elif k == 't' and s.draw(4) == 3:
                self.emit('var %s = {:};' % n)
                self.vars[n] = Tab({})
            else:
                self.n += 1
                t, o = self.literal(k)
                self.emit('var %s%s = %s;' % (n, '[]' if k == 'a' else '', t))
                self.vars[n] = o
        for _ in range(s.int(2, self.nops)):
            self.op()
        for n in sorted(self.vars):
            self.emit('out( %s );' % n)
            self.log.append(dump(self.vars[n]))
        head = ('function idf( x ) { return x; }\nfunction setel( c, i, v ) { c[i] = v; }\n'
                'function getel( c, i ) { return c[i]; }\nfunction cnt( c ) { return c._count; }\n')
        pre = ['var xv = 0;', 'var xa[30];', 'var n = 0;', 'var fk = 0;', 'var fv = 0;']
        body = pre + self.src
        if s.draw(2):
            src = head + 'function go()\n{\n  ' + '\n  '.join(body) + '\n}\ngo();\n'
        else:
            src = head + '\n'.join(body) + '\n'
        return src, ''.join(l + '\n' for l in self.log)

    def put(self, t, o, kt, k, vt, v, setter):
        s = self.s
        c = s.draw(6)
        if c == 5:
            self.emit('setel( %s, %s, %s );' % (t, kt, vt))
        elif c == 4:
            self.emit('xv = %s;' % vt)
            self.emit('%s[%s] = xv;' % (t, kt))
        else:
            self.emit('%s[%s] = %s;' % (t, kt, vt))
        setter()

    def op(self):
        s = self.s
        ks = [k for k in ('a', 't') if any(self.reaches(o, k) for o in self.vars.values())]
        main = 't' if self.kinds.count('t') > self.kinds.count('a') else 'a'
        k = main if main in ks and s.draw(4) < 3 else s.pick(ks)
        (self.aop if k == 'a' else self.top)()

    def o(self, t, v):
        self.emit('out( %s );' % t)
        self.log.append(dump(v))

    def rebind(self):
        s = self.s
        n = s.pick(sorted(self.vars))
        if s.draw(2):
            t, o = self.loc(None)
            self.emit('%s = %s;' % (n, t))
            self.vars[n] = o
        else:
            k = s.pick('at')
            t, o = self.literal(k)
            self.emit('%s = %s;' % (n, t))
            self.vars[n] = o

    def aop(self):
        s = self.s
        t, o = self.loc('a')
        v = o.v
        n = len(v)
        c = s.draw(20)
        self.classes.add('a%d' % c)
        if c <= 2:
            vt, val = self.value(o)
            i = s.draw(n + 1) if n else 0
            if s.draw(4) == 3:
                i = n + s.int(0, 25)

            def put():
                while len(v) <= i:
                    v.append(0)
                v[i] = val
            if depth(val) + 1 < 5:
                self.put(t, o, self.idx(i), i, vt, val, put)
        elif c == 3:
            self.o(t, o)
        elif c == 4:
            self.o(s.pick(['%s._count', 'array::count( %s )', 'list::count( %s )', 'cnt( %s )', 'queue::count( %s )', 'stack::count( %s )']) % t, n)
        elif c == 5 and n:
            i = s.draw(n)
            self.o(s.pick(['%s[%s]', 'getel( %s, %s )']) % (t, self.idx(i)), v[i])
        elif c == 6 and n:
            i = s.draw(n)
            if isinstance(v[i], int):
                f = s.draw(6)
                k = s.int(-9, 9)
                if f == 0:
                    self.emit('%s[%s] += %d;' % (t, self.idx(i), k)); v[i] = w32(v[i] + k)
                elif f == 1:
                    self.emit('++%s[%s];' % (t, self.idx(i))); v[i] = w32(v[i] + 1)
                elif f == 2:
                    self.o('%s[%s]--' % (t, self.idx(i)), v[i]); v[i] = w32(v[i] - 1)
                elif f == 3:
                    self.emit('%s[%s] ^= %d;' % (t, self.idx(i), k)); v[i] = w32(v[i] ^ k)
                elif f == 4:
                    v[i] = w32(v[i] * k); self.o('%s[%s] *= %d' % (t, self.idx(i), k), v[i])
                else:
                    v[i] = w32(v[i] - k); self.emit('%s[%s] = %s[%s] - %d;' % (t, i, t, i, k))
            elif isinstance(v[i], bytes):
                self.emit('%s[%s] += "+";' % (t, self.idx(i))); v[i] = v[i] + b'+'
        elif c == 7:
            i, m = s.int(0, n), s.int(1, 9)
            two = s.draw(2)
            if not two:
                m = 1
            x = 'array::insert( %s, %s%s )' % (t, self.idx(i), ', %d' % m if two else '')
            v[i:i] = [0] * m
            if s.draw(2):
                self.o(x, o)
            else:
                self.emit(x + ';')
        elif c == 8:
            i, m = s.int(0, n + 2), s.int(1, 9)
            two = s.draw(2)
            if not two:
                m = 1
            x = 'array::remove( %s, %s%s )' % (t, self.idx(i), ', %d' % m if two else '')
            del v[i:i + m]
            if s.draw(2):
                self.o(x, o)
            else:
                self.emit(x + ';')
        elif c == 9:
            i = s.int(0, n + 3)
            del v[i:]
            self.o('array::truncate( %s, %s )' % (t, self.idx(i)), o)
        elif c == 10:
            vt, val = self.value(o)
            if depth(val) + 1 < 5:
                f = s.draw(5)
                fn = ['list::push', 'list::push_front', 'list::push_back', 'queue::push', 'stack::push'][f]
                self.emit('%s( %s, %s );' % (fn, t, vt))
                v.insert(len(v) if f == 2 else 0, val)
        elif c == 11:
            f = s.draw(5)
            fn = ['list::pop', 'list::pop_front', 'list::pop_back', 'queue::pop', 'stack::pop'][f]
            r = 0
            if n:
                r = v.pop(-1 if f in (2, 3) else 0)
            self.o('%s( %s )' % (fn, t), r)
        elif c == 12:
            f = s.draw(3)
            fn = ['list::peek', 'queue::peek', 'stack::peek'][f]
            self.o('%s( %s )' % (fn, t), 0 if not n else v[-1] if f == 1 else v[0])
        elif c == 13:
            self.emit('xv = %s;' % t)
            t = 'xv'
            self.emit('for ( var va%d : %s ) { out( va%d ); }' % (self.fn(), t, self.n))
            self.log += [dump(x) for x in v]
        elif c == 14:
            self.emit('xv = %s;' % t)
            t = 'xv'
            self.emit('for ( fk, fv : %s ) { out( fk, fv ); }' % t)
            self.log += ['i%d %s' % (i, dump(x)) for i, x in enumerate(v)]
        elif c == 15:
            self.rebind()
        elif c == 16:
            i = s.pick([-1, -2, -100, -2147483647, 2147483647, 2097152, 100000000])
            if s.draw(2):
                self.emit('%s[%s] = 7;' % (t, i))
            else:
                self.o('%s[%s]' % (t, i), 0)
        elif c == 17:
            # grow in a loop
            m = s.int(1, 60)
            k = self.fn()
            self.emit('for ( var i%d = 0; i%d < %d; ++i%d ) { %s[%d + i%d] = i%d * 3; }' % (k, k, m, k, t, n, k, k))
            v += [i * 3 for i in range(m)]
        elif c == 18:
            names = [x for x in sorted(self.vars) if self.vars[x] is o]
            if names:
                self.vars[names[0]] = Arr([])
                self.emit('%s( %s );' % (s.pick(['array::clear', 'list::clear', 'queue::clear', 'stack::clear']), names[0]))
        elif c == 19 and n:
            # replace an element by a fresh literal
            i = s.draw(n)
            lt, lv = self.literal(s.pick('at'))
            if depth(lv) < 4 and depth(o) < 4:
                v[i] = lv
                self.emit('%s[%s] = %s;' % (t, self.idx(i), lt))

    def fn(self):
        self.n += 1
        return self.n

    def top(self):
        s = self.s
        t, o = self.loc('t')
        v = o.v
        c = s.draw(18)
        self.classes.add('t%d' % c)
        ks = sorted(v, key=repr)
        if c <= 3:
            vt, val = self.value(o)
            k = s.pick(ks) if ks and s.draw(3) == 0 else self.newkey()
            if depth(val) + 1 < 5:
                if s.draw(6) == 5:
                    self.o('hash::add( %s, %s, %s )' % (t, vt, self.key(k)), val)
                    v[k] = val
                elif isinstance(k, bytes) and k in v and k.decode('latin-1') in WORDS and k != b'count' and s.draw(2):
                    self.emit('%s.%s = %s;' % (t, k.decode(), vt))
                    v[k] = val
                else:
                    self.put(t, o, self.key(k), k, vt, val, lambda: v.__setitem__(k, val))
        elif c == 4:
            self.o(t, o)
        elif c == 5:
            self.o(s.pick(['%s._count', 'hash::count( %s )', 'cnt( %s )']) % t, len(v))
        elif c == 6 and ks:
            k = s.pick(ks)
            if isinstance(k, bytes) and k.decode('latin-1') in WORDS and k != b'count' and s.draw(2):
                self.o('%s.%s' % (t, k.decode()), v[k])
            else:
                self.o(s.pick(['%s[%s]', 'getel( %s, %s )']) % (t, self.key(k)), v[k])
        elif c == 7 and ks:
            k = s.pick(ks)
            if isinstance(v[k], int):
                f, m = s.draw(4), s.int(-9, 9)
                if f == 0:
                    self.emit('%s[%s] += %d;' % (t, self.key(k), m)); v[k] = w32(v[k] + m)
                elif f == 1:
                    self.emit('++%s[%s];' % (t, self.key(k))); v[k] = w32(v[k] + 1)
                elif f == 2:
                    self.o('%s[%s]--' % (t, self.key(k)), v[k]); v[k] = w32(v[k] - 1)
                else:
                    v[k] = w32(v[k] | m); self.o('%s[%s] |= %d' % (t, self.key(k), m), v[k])
            elif isinstance(v[k], bytes):
                self.emit('%s[%s] += "+";' % (t, self.key(k))); v[k] = v[k] + b'+'
        elif c <= 9:
            k = s.pick(ks) if ks and s.draw(2) else self.newkey()
            self.o(s.pick(['%s._exists( %s )', 'hash::exists( %s, %s )']) % (t, self.key(k)), 1 if k in v else 0)
        elif c <= 11:
            k = s.pick(ks) if ks and s.draw(3) else self.newkey()
            if s.draw(2):
                self.emit('%s._remove( %s );' % (t, self.key(k)))
            else:
                self.o('hash::remove( %s, %s )' % (t, self.key(k)), 1 if k in v else 0)
            v.pop(k, None)
        elif c == 12:
            self.emit('xv = %s;' % t)
            t = 'xv'
            self.emit('out( "<" ); for ( fk, fv : %s ) { out( fk, fv ); } out( ">" );' % t)
            self.log += ['"<"'] + [dump(k) + ' ' + dump(x) for k, x in v.items()] + ['">"']
        elif c == 13:
            self.emit('xv = %s;' % t)
            t = 'xv'
            self.emit('out( "<" ); for ( var va%d : %s ) { out( va%d ); } out( ">" );' % (self.fn(), t, self.n))
            self.log += ['"<"'] + [dump(x) for x in v.values()] + ['">"']
        elif c == 14:
            self.rebind()
        elif c == 15:
            # fill in a loop, maybe remove part of it again
            m = s.int(1, 70)
            f = s.pick([1, 2, 97, 193, 769, 5 * 11 * 17, 65536, 1000003])
            b = s.int(-10, 50)
            k = self.fn()
            self.emit('for ( var i%d = 0; i%d < %d; ++i%d ) { %s[i%d * %d + %d] = i%d; }' % (k, k, m, k, t, k, f, b, k))
            for i in range(m):
                v[w32(i * f + b)] = i
            if s.draw(2):
                st = s.int(1, 3)
                self.emit('for ( var j%d = 0; j%d < %d; j%d += %d ) { %s._remove( j%d * %d + %d ); }' % (k, k, m, k, st, t, k, f, b))
                for i in range(0, m, st):
                    v.pop(w32(i * f + b), None)
        elif c == 16:
            m = s.int(1, 40)
            k = self.fn()
            p = s.pick(['gen', 'q', 'key'])
            self.emit('for ( var i%d = 0; i%d < %d; ++i%d ) { %s["%s" + i%d] = i%d; }' % (k, k, m, k, t, p, k, k))
            for i in range(m):
                v[b'%s%d' % (p.encode(), i)] = i
        elif c == 17:
            names = [x for x in sorted(self.vars) if self.vars[x] is o]
            if names:
                self.vars[names[0]] = Tab({})
                self.emit('hash::clear( %s );' % names[0])
