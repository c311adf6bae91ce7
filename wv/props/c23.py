"""The io:: library reads and writes exactly what it is told to, and nothing is lost or left open."""
import os, shutil
from ..core import *

NAMES = ['a', 'b', 'c.bin', 'sub/d']
UMASK = os.umask(0)
os.umask(UMASK)


def esc(b):
    return '"%s"' % ''.join(chr(c) if 32 <= c <= 126 and c not in (34, 92) else '\\x%02x' % c for c in b)


class C23(Prop):
    id = 'C23'
    configs = ['default', 'compact', 'amalgam']
    quick = 25000
    thorough = 400000
    rule = ('a case is a generated script of up to 25 file operations on a scratch directory with generated initial files (any bytes, up to 70000 of them), compared with a model of the directory, of every open '
            'descriptor and of every value the script read; non-trivial when the script both wrote to a file and read data back')
    assumptions = ['POSIX files (WRENCH_LINUX_FILE_IO)', 'io::seek is always given its whence', 'the values of io::writeFile and io::deleteFile are not specified']

    def data(self, s):
        k = s.draw(5)
        if k == 0:
            return b''
        if k == 1:
            return s.bytes(s.int(1, 12))
        if k == 2:
            return bytes([s.draw(256)]) * s.pick([1, 255, 256, 257, 1000, 4096, 65536, 70000])
        if k == 3:
            return s.bytes(s.int(1, 5), b'\0\n\r\xff\x80') * s.int(1, 6)
        return s.bytes(s.int(1, 30), b'abcdefgh \n')

    def gen(self, s):
        if s.draw(8) == 7:
            n = s.int(1, 5)
            lines = [s.bytes(s.int(0, 20), b'abc xyz') if s.draw(2) else bytes([s.pick(b'pqr')]) * s.pick([1, 254, 255, 256, 257, 258, 511, 512, 513, 700]) for _ in range(n)]
            text = b'\n'.join(lines) + (b'\n' if s.draw(2) else b'')
            want = []
            pos = 0
            k = s.int(1, 8)
            for _ in range(k):
                e = text.find(b'\n', pos, pos + 257)
                if e >= 0:
                    want.append(text[pos:e])
                    pos = e + 1
                else:
                    want.append(text[pos:pos + 256])
                    pos = min(len(text), pos + 256)
            src = ''.join('out( io::getline() );\n' for _ in range(k))
            return dict(kind='line', files={'in': text}, src=src, out=[esc(x) for x in want], cfg=s.pick(self.configs), gc=-1, final={'in': text}, modes={}, rw=(1, 1))
        fs = {}
        for n in NAMES:
            if s.draw(2):
                fs[n] = self.data(s)
        init = dict(fs)
        fs = {k: bytearray(v) for k, v in fs.items()}
        fds = [None, None, None]        # [file bytearray, pos, writable, append]
        D = [b'zero', b'one', b'two']
        modes = {}
        src = ['var d0 = "zero";', 'var d1 = "one";', 'var d2 = "two";', 'var f0 = -1;', 'var f1 = -1;', 'var f2 = -1;', 'var t = 0;',
               'function rd( f, n ) { return io::read( f, n ); }', 'function wr( f, d ) { return io::write( f, d ); }', 'function whole( n ) { return io::readFile( n ); }']
        out = []
        rw = [0, 0]

        def do_read(f, n):
            if f is None:
                return b''
            r = bytes(f[0][f[1]:f[1] + n])
            f[1] += len(r)
            if r:
                rw[1] += 1
            return r

        def do_write(f, b):
            if f is None or not f[2]:
                return -1
            if b:
                if f[3]:
                    f[1] = len(f[0])
                if f[1] > len(f[0]):
                    f[0].extend(bytes(f[1] - len(f[0])))
                f[0][f[1]:f[1] + len(b)] = b
                f[1] += len(b)
                rw[0] += 1
            return len(b)
        for _ in range(s.int(1, 25)):
            k = s.weighted([(3, 'readFile'), (3, 'writeFile'), (1, 'lit'), (1, 'del'), (4, 'open'), (2, 'close'), (6, 'write'), (6, 'read'), (5, 'seek'), (1, 'fsync'), (1, 'cat'), (1, 'odd'), (1, 'idx')])
            i, j = s.draw(3), s.draw(3)
            f = fds[j]
            if k == 'lit':
                D[i] = s.bytes(s.int(0, 9), b'abcXYZ 019')
                src.append('d%d = "%s";' % (i, D[i].decode()))
            elif k == 'cat':
                if len(D[i]) + len(D[j]) > 200000:
                    continue
                src.append('d%d = d%d + d%d;' % (i, i, j))
                D[i] = D[i] + D[j]
            elif k == 'idx':
                if D[i]:
                    p = s.draw(len(D[i]))
                    src.append('out( d%d[%d] );' % (i, p))
                    out.append('i%d' % D[i][p])
            elif k == 'readFile':
                n = s.pick(NAMES)
                if n not in fs:
                    src.append('out( io::readFile( "%s" ) );' % n)
                    out.append('i0')
                    continue
                D[i] = bytes(fs[n])
                src.append('d%d = %s( "%s" );' % (i, s.pick(['io::readFile', 'whole']), n))
                rw[1] += 1 if D[i] else 0
            elif k == 'writeFile':
                n = s.pick(NAMES)
                src.append('io::writeFile( "%s", d%d );' % (n, i))
                # the same file may be open: it is truncated, then written
                fs.setdefault(n, bytearray())[:] = D[i]
                rw[0] += 1 if D[i] else 0
            elif k == 'del':
                n = s.pick(NAMES)
                src.append('io::deleteFile( "%s" );' % n)
                fs.pop(n, None)
                modes.pop(n, None)
            elif k == 'open':
                if f:
                    continue
                n = s.pick(NAMES)
                if s.draw(6) == 0:
                    n = s.pick(['no/such', 'sub', ''])
                fl = s.pick([['O_RDONLY'], ['O_RDWR'], ['O_RDWR', 'O_CREAT'], ['O_CREAT', 'O_RDWR', 'O_TRUNC'], ['O_RDWR', 'O_APPEND'], ['O_RDWR', 'O_APPEND', 'O_CREAT'],
                             ['O_RDWR', 'O_CREAT', 'O_EXCL'], ['O_RDWR', 'O_TRUNC'], []])
                mode = s.pick([None, None, None, 0o600, 0o666, 0o640]) if fl else None
                m = ' | '.join('io::' + x for x in fl) if fl else None
                src.append('f%d = io::open( "%s"%s%s );' % (j, n, ', ' + m if m else '', '' if mode is None else ', 0%o' % mode))
                src.append('out( f%d >= 0 );' % j)
                creat = 'O_CREAT' in fl or not fl
                ok = n in NAMES and (n in fs or creat) and not (n in fs and 'O_EXCL' in fl)
                out.append('i%d' % ok)
                if n == 'sub' and fl == ['O_RDONLY']:       # a directory opens, but cannot be read
                    out[-1] = 'i1'
                    src.append('io::close( f%d ); f%d = -1;' % (j, j))
                if not ok:
                    src.append('f%d = -1;' % j)
                    continue
                if n not in fs:
                    fs[n] = bytearray()
                    modes[n] = (0o666 if mode is None else mode) & ~UMASK
                if 'O_TRUNC' in fl:
                    del fs[n][:]
                fds[j] = [fs[n], 0, fl != ['O_RDONLY'], 'O_APPEND' in fl]
            elif k == 'close':
                src.append('out( io::close( f%d ) ); f%d = -1;' % (j, j))
                out.append('i%d' % (0 if f else -1))
                fds[j] = None
            elif k == 'write':
                how = s.draw(3)
                n = s.pick([0, 1, 2, 5, 255, 256, 100000])
                src.append('out( %s );' % ('io::write( f%d, d%d )' % (j, i) if how == 0 else 'wr( f%d, d%d )' % (j, i) if how == 1 else 'io::write( f%d, d%d, %d )' % (j, i, n)))
                out.append('i%d' % do_write(f, D[i] if how < 2 else D[i][:n]))
            elif k == 'read':
                n = s.pick([1, 2, 3, 7, 255, 256, 300, 5000, 100000]) if s.draw(3) else s.int(1, 40)
                D[i] = do_read(f, n)
                src.append('d%d = %s( f%d, %d );' % (i, s.pick(['io::read', 'rd']), j, n))
                src.append('out( d%d._count, str::strlen( d%d ) );' % (i, i))
                out.append('i%d i%d' % (len(D[i]), len(D[i])))
            elif k == 'seek':
                w = s.pick(['SET', 'CUR', 'END'])
                off = s.pick([0, 1, -1, 5, -5, 3000]) if s.draw(2) else s.int(-20, 20)
                src.append('out( io::seek( f%d, %s, io::SEEK_%s ) );' % (j, '%d' % off if off >= 0 else '0 - %d' % -off, w))
                if f is None:
                    out.append('i-1')
                else:
                    p = off + (0 if w == 'SET' else f[1] if w == 'CUR' else len(f[0]))
                    if p < 0:
                        out.append('i-1')
                    else:
                        f[1] = p
                        out.append('i%d' % p)
            elif k == 'fsync':
                src.append('out( io::fsync( f%d ) );' % j)
                out.append('i%d' % (0 if f else -1))
            else:
                src.append(s.pick(['io::readFile( "sub" );', 'io::writeFile( "sub", d0 );', 'io::writeFile( "no/such", d0 );', 'io::deleteFile( "no/such" );', 'io::readFile( "no/such" );',
                                   'io::writeFile( "a", 5 );', 'io::readFile( "" );', 'io::deleteFile( "" );', 't = io::read( f%d, 0 );' % j]))
        for i in range(3):
            src.append('out( d%d );' % i)
            out.append(esc(D[i]))
        for j in range(3):
            if fds[j]:
                src.append('io::close( f%d );' % j)
        return dict(kind='file', files=init, src='\n'.join(src) + '\n', out=out, final={k: bytes(v) for k, v in fs.items()}, modes=modes, cfg=s.pick(self.configs), gc=s.pick([-1, -1, 0, 2000]), rw=tuple(rw))

    def run(self, case, eng):
        e = eng[case['cfg']]
        top = e.cwd
        if not top or not os.path.isdir(top) or os.path.realpath(top) == '/':
            raise RuntimeError('no scratch directory')
        for n in os.listdir(top):
            p = os.path.join(top, n)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        os.mkdir(os.path.join(top, 'sub'))
        for n, b in case['files'].items():
            with open(os.path.join(top, n), 'wb') as f:
                f.write(b)
        ops = [['stdin', 'in']] if case['kind'] == 'line' else []
        r = e.req(ops + [['fds'], ['script', 1, case['gc'], 500, 0, 1, 0, 0, case['src'].encode('latin-1'), 0], ['fds']])
        q = ScriptResult(r[-3], case['cfg'])
        if q.cerr or q.err:
            raise Violation('[%s] error %s %s' % (case['cfg'], q.cerr, q.err))
        g = q.log.split('\n')[:-1]
        if g != case['out']:
            for i, (x, y) in enumerate(zip(g + [None] * 99, case['out'])):
                if x != y:
                    raise Violation('[%s] line %d of output is %s, expected %s' % (case['cfg'], i, str(x)[:200], y[:200]))
            raise Violation('[%s] too much output' % case['cfg'])
        if r[-4] != r[-2]:
            raise Violation('[%s] %s descriptors open, %s before' % (case['cfg'], r[-2], r[-4]))
        if q.leak:
            raise Violation('leak')
        got = {}
        for d, _, ns in os.walk(top):
            for n in ns:
                p = os.path.join(d, n)
                got[os.path.relpath(p, top)] = open(p, 'rb').read()
        if got != case['final']:
            for n in sorted(set(got) | set(case['final'])):
                if got.get(n) != case['final'].get(n):
                    raise Violation('[%s] file %s holds %s, expected %s' % (case['cfg'], n, str(got.get(n))[:200], str(case['final'].get(n))[:200]))
        for n, m in case['modes'].items():
            if os.stat(os.path.join(top, n)).st_mode & 0o777 != m:
                raise Violation('[%s] file %s has mode %o, expected %o' % (case['cfg'], n, os.stat(os.path.join(top, n)).st_mode & 0o777, m))
        return bool(case['rw'][0] and case['rw'][1]), [case['kind']]

    def render(self, case):
        return '// %s gc=%d files: %s\n' % (case['cfg'], case['gc'], {k: (v if len(v) < 60 else '%d bytes' % len(v)) for k, v in case['files'].items()}) + case['src']


PROP = C23()
