"""The tcp:: library: what is sent over a connection arrives, whole and in order, and only there."""
import os, socket
from ..core import *
from .. import lang

FALSE = ('i0', 'i-1')


def strlit(b):
    # the digits behind \\0 would belong to it
    o = ''
    e = False
    for c in b:
        if e and 48 <= c <= 57:
            o += '\\0%d' % c
        else:
            o += lang.ESC.get(c) or chr(c)
            e = c == 0
    return '"%s"' % o


def unesc(t):
    if len(t) < 2 or t[0] != '"' or t[-1] != '"':
        return None
    o = bytearray()
    i = 1
    while i < len(t) - 1:
        if t[i] == '\\' and t[i + 1] == 'x':
            o.append(int(t[i + 2:i + 4], 16))
            i += 4
        elif t[i] == '\\':
            o += t[i + 1].encode('latin-1')
            i += 2
        else:
            o += t[i].encode('latin-1')
            i += 1
    return bytes(o)


def free_port(p):
    k = socket.socket()
    try:
        k.bind(('0.0.0.0', p))
        return True
    except OSError:
        return False
    finally:
        k.close()


class C28(Prop):
    id = 'C28'
    configs = ['tcp', 'amtcp']
    quick = 12000
    thorough = 200000
    rule = ('a case is a generated script of up to 30 operations on one listening socket, up to four connections with both ends in the script, and possibly one to a listener outside (bind, connect, accept, '
            'send of any bytes, receive of any length, peek, close), compared with a model of every stream; non-trivial when at least two sends arrived')
    assumptions = ['loopback, Linux sockets', 'a connection is closed only when nothing sent to that end is left unread']
    counter = 0

    def data(self, s):
        v = self.data1(s)[:self.room]      # an image holds 64 KB
        self.room -= len(v) if len(v) > 300 else 0
        return v or b'-'

    def data1(self, s):
        k = s.draw(5)
        if k == 0:
            return bytes(97 + s.draw(26) for _ in range(s.int(1, 12)))
        if k == 1:
            return s.bytes(s.int(1, 12))
        if k == 2:
            return bytes([s.draw(256)]) * s.pick([1, 255, 256, 257, 1000, 4095, 8191, 8192, 8193, 20000])
        if k == 3:
            return s.bytes(s.int(1, 5), b'\0\n\r\xff\x80') * s.int(1, 6)
        return b'%d' % s.int(0, 99999)

    def gen(self, s):
        L = ['var z = 0; var d = 0; var c0 = -1; var c1 = -1; var c2 = -1; var c3 = -1; var s0 = -1; var s1 = -1; var s2 = -1; var s3 = -1; var e = -1;',
             'function rx( k, n ) { var b = ""; for( var i = 0; i < 400 && b._count < n; ++i ) { tcp::peek( k, 3000 ); var r = tcp::receive( k, n - b._count ); if ( r._count > 0 ) { b += r; } else { i = 400; } } return b; }',
             'var l = tcp::bind( @PORT );', 'out( l > 0 );']
        ops = [('bind',)]
        self.room = 42000
        conn = []           # per connection: dict(c=open, s=None|open|closed)
        data = {}           # (i, 'c'/'s') -> bytes on the way to that end
        sends = 0
        listening = True
        outside = None
        for _ in range(s.int(3, 30)):
            ends = [(i, 'c') for i, x in enumerate(conn) if x['c'] == 'open'] + [(i, 's') for i, x in enumerate(conn) if x['s'] == 'open']
            pend = [i for i, x in enumerate(conn) if x['s'] == 'pending']
            k = s.weighted([(3, 'connect'), (4, 'accept'), (8, 'send'), (7, 'recv'), (2, 'peek'), (2, 'close'), (1, 'misc'), (1, 'outside')])
            if k == 'connect' and len(conn) < 4:
                i = len(conn)
                addr = s.pick(['127.0.0.1', '127.0.0.1', 'localhost', '127.0.0.%d' % s.int(1, 254), '127.%d.%d.%d' % (s.draw(256), s.draw(256), s.int(1, 254))])
                L.append('c%d = tcp::connect( "%s", @PORT ); out( c%d > 0 );' % (i, addr, i))
                ops.append(('connect', listening))
                conn.append(dict(c='open', s='pending') if listening else dict(c='no', s='no'))
                data[i, 'c'] = b''
                data[i, 's'] = b''
            elif k == 'accept' and pend and listening:
                i = pend[0]
                L.append('s%d = tcp::accept( l ); out( s%d > 0 );' % (i, i))
                ops.append(('accept',))
                conn[i]['s'] = 'open'
            elif k == 'send' and ends:
                i, w = s.pick(ends)
                v = self.data(s)
                o = 's' if w == 'c' else 'c'
                if conn[i][o] == 'closed':
                    if not data[i, w]:
                        L.append('out( tcp::send( %s%d, %s ) );' % (w, i, strlit(v)))
                        ops.append(('gone', len(v)))
                    continue
                t = strlit(v)
                f = s.draw(4)
                if f == 0 and v.isdigit() and (v == b'0' or v[:1] != b'0') and len(v) < 9:
                    t = v.decode()
                if f == 1:
                    L.append('d = %s; z = tcp::send( %s%d, d ); out( z );' % (t, w, i))
                else:
                    L.append('out( tcp::send( %s%d, %s ) );' % (w, i, t))
                ops.append(('send', len(v)))
                data[i, o] += v
                sends += 1
            elif k == 'recv' and ends:
                i, w = s.pick(ends)
                o = 's' if w == 'c' else 'c'
                p = data[i, w]
                n = s.pick([1, 2, 10, 100, 5000, 8192, 50000, len(p), len(p) + 1])
                if p and n:
                    if n <= len(p):
                        L.append('out( rx( %s%d, %d ) );' % (w, i, n))
                        ops.append(('rx', p[:n]))
                        data[i, w] = p[n:]
                    else:
                        # all there is, possibly in pieces
                        if s.draw(3):
                            L.append('out( rx( %s%d, %d ) );' % (w, i, len(p)))
                            ops.append(('rx', p))
                        else:
                            form = s.pick(['tcp::receive( %s%d )', 'tcp::receive( %s%d, 100000 )']) % (w, i)
                            L.append('tcp::peek( %s%d, 3000 ); d = %s; out( d ); out( rx( %s%d, %d - d._count ) );' % (w, i, form, w, i, len(p)))
                            ops.append(('rx2', p))
                        data[i, w] = b''
                elif conn[i][o] == 'closed':
                    L.append('tcp::peek( %s%d, 3000 ); out( tcp::receive( %s%d, %d ) );' % (w, i, w, i, s.int(1, 100)))
                    ops.append(('eof',))
            elif k == 'peek' and ends:
                i, w = s.pick(ends)
                o = 's' if w == 'c' else 'c'
                if data[i, w]:
                    L.append('out( tcp::peek( %s%d, 3000 ) );' % (w, i))
                    ops.append(('some',))
                elif conn[i][o] != 'closed':
                    L.append('out( tcp::peek( %s%d ) );' % (w, i))
                    ops.append(('none',))
            elif k == 'close' and ends:
                i, w = s.pick(ends)
                o = 's' if w == 'c' else 'c'
                if data[i, w] or conn[i][o] == 'pending':
                    continue
                L.append('tcp::close( %s%d );' % (w, i))
                conn[i][w] = 'closed'
            elif k == 'misc':
                f = s.draw(4)
                if f == 0 and listening:
                    L.append('out( tcp::bind( @PORT ) );')
                    ops.append(('fail',))
                elif f == 1:
                    L.append('out( tcp::connect( "%s", @PORT ) );' % s.pick(['256.0.0.1', '127.0.0.256', 'no-such-host.invalid', '127.0.0.1x', '.', '127..0.1', '127.0.0.1.1', '', 'a b']))
                    ops.append(('fail',))
                elif f == 2 and listening and not pend:
                    L.append('tcp::close( l );')
                    listening = False
                elif f == 3:
                    L.append('out( tcp::%s );' % s.pick(['send( 99999, "x" )', 'send( -1, "abc" )', 'receive( 99999, 10 )', 'receive( 99999 )', 'receive( -1, 5 )', 'accept( 99999 )', 'connect( "127.0.0.1" )', 'send( 1 )', 'receive()', 'accept()', 'send()', 'bind()', 'connect()']))
                    ops.append(('fail',))
            elif k == 'outside' and outside is None:
                ip = '127.%d.%d.%d' % (s.draw(256), s.draw(256), s.int(1, 254))
                vs = [self.data(s) for _ in range(s.int(1, 3))]
                reply = self.data(s) if s.draw(2) else b''
                outside = (ip, b''.join(vs), reply)
                L.append('e = tcp::connect( "%s", @OUT ); out( e > 0 );' % ip)
                ops.append(('accept',))
                for v in vs:
                    L.append('out( tcp::send( e, %s ) );' % strlit(v))
                    ops.append(('send', len(v)))
                    sends += 1
                L.append('tcp::close( e );')
        for i, x in enumerate(conn):
            for w in 'cs':
                if x[w] == 'open' and data[i, w]:
                    L.append('out( rx( %s%d, %d ) );' % (w, i, len(data[i, w])))
                    ops.append(('rx', data[i, w]))
        for i, x in enumerate(conn):
            for w in 'cs':
                if x[w] == 'open':
                    L.append('tcp::close( %s%d );' % (w, i))
        if listening:
            L.append('tcp::close( l );')
        L.append('out( "end" );')
        ops.append(('end',))
        return dict(src='\n'.join(L) + '\n', ops=ops, outside=outside, cfg=s.pick(self.configs), gc=s.pick([-1, 0, 3000]), nt=sends >= 2)

    def run(self, case, eng):
        e = eng[case['cfg']]
        e.wall = 15
        for _ in range(400):
            C28.counter += 1
            port = 10000 + (os.getpid() % 40) * 500 + C28.counter % 500      # ports of this worker's own
            if free_port(port):
                break
        else:
            raise Discard()
        src = case['src'].replace('@PORT', str(port))
        lst = None
        try:
            if case['outside']:
                lst = socket.socket()
                lst.bind((case['outside'][0], 0))
                lst.listen(4)
                src = src.replace('@OUT', str(lst.getsockname()[1]))
            r = e.req([['newstate', 0, 200, 1, case['gc'], 0], ['compile', 0, 1, 1, src.encode('latin-1')], ['run', 0, 0, 0, 0], ['log'], ['killstate', 0]])
            got = b''
            if lst:
                lst.settimeout(3)
                try:
                    k, _ = lst.accept()
                    k.settimeout(3)
                    while True:
                        b = k.recv(65536)
                        if not b:
                            break
                        got += b
                    k.close()
                except socket.timeout:
                    got += b'<nothing came>'
        finally:
            if lst:
                lst.close()
        if r[1][0] != b'0':
            raise Violation('does not compile: %s' % r[1])
        if r[2][1] != b'0':
            raise Violation('ends in error %s' % r[2][1])
        if r[-1] != [b'0', b'0']:
            raise Violation('leak %r' % r[-1])
        g = r[3][0].decode('latin-1').split('\n')[:-1]
        if g[0] != 'i1' and not free_port(port):
            raise Discard()
        n = 0

        def nxt():
            nonlocal n
            n += 1
            return g[n - 1] if n <= len(g) else 'nothing'
        for op in case['ops']:
            k = op[0]
            x = nxt()
            w = 'operation %d %s: ' % (n, k)
            if k in ('bind', 'accept'):
                if x != 'i1':
                    raise Violation('[%s] %sfailed' % (case['cfg'], w))
            elif k == 'connect':
                if x != ('i1' if op[1] else 'i0'):
                    raise Violation('[%s] %sis %s with the port %s' % (case['cfg'], w, x, 'open' if op[1] else 'closed'))
            elif k == 'send':
                if x != 'i%d' % op[1]:
                    raise Violation('[%s] %sanswers %s for %d bytes' % (case['cfg'], w, x, op[1]))
            elif k == 'rx':
                if unesc(x) != op[1]:
                    raise Violation('[%s] %sreceived %.300s, sent was %.300r' % (case['cfg'], w, x, op[1]))
            elif k == 'rx2':
                a = unesc(x)
                b = unesc(nxt())
                if not a or b is None or a + b != op[1]:
                    raise Violation('[%s] %sreceived %.300r and %.300r, sent was %.300r' % (case['cfg'], w, a, b, op[1]))
            elif k == 'gone':
                if x not in ('i-1', 'i%d' % op[1]):
                    raise Violation('[%s] %ssending to a closed connection answers %s' % (case['cfg'], w, x))
            elif k == 'eof' and x != 'i0':
                raise Violation('[%s] %sfrom a closed connection came %.300s' % (case['cfg'], w, x))
            elif k == 'some' and x in FALSE:
                raise Violation('[%s] %sdata is waiting but it answers %s' % (case['cfg'], w, x))
            elif k == 'none' and x != 'i0':
                raise Violation('[%s] %sno data is waiting but it answers %s' % (case['cfg'], w, x))
            elif k == 'fail' and x not in FALSE:
                raise Violation('[%s] %scannot work but answers %s' % (case['cfg'], w, x))
            elif k == 'end' and x != '"end"':
                raise Violation('[%s] the script did not reach its end' % case['cfg'])
        if case['outside'] and got != case['outside'][1]:
            raise Violation('[%s] the listener outside received %.300r, sent was %.300r' % (case['cfg'], got, case['outside'][1]))
        return case['nt'], ['outside'] if case['outside'] else []

    def render(self, case):
        return '// %s gc=%d outside=%s\n' % (case['cfg'], case['gc'], case['outside']) + case['src']


PROP = C28()
