"""math:: and std::rand compute what the C functions they are named after do."""
import ctypes, ctypes.util, math, struct
from ..core import *

M = ctypes.CDLL(ctypes.util.find_library('m') or 'libm.so.6')
F = ctypes.c_float


def _fn(name, n, second=F):
    f = getattr(M, name)
    f.restype = F
    f.argtypes = [F, second][:n]
    return f


ONE = dict(sin='sinf', cos='cosf', tan='tanf', sinh='sinhf', cosh='coshf', tanh='tanhf', asin='asinf', acos='acosf', atan='atanf', log='logf', ln='logf', log10='log10f',
           exp='expf', trunc='truncf', sqrt='sqrtf', ceil='ceilf', floor='floorf', abs='fabsf')
ONE = {k: _fn(v, 1) for k, v in ONE.items()}
POW, FMOD, ATAN2, LDEXP = _fn('powf', 2), _fn('fmodf', 2), _fn('atan2f', 2), _fn('ldexpf', 2, ctypes.c_int)


def f32(x):
    return ctypes.c_float(x).value


def fbits(u):
    return struct.unpack('<f', struct.pack('<I', u))[0]


def w32(v):
    return (v + 2**31) % 2**32 - 2**31


def close(a, b):
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return math.copysign(1, a) == math.copysign(1, b) or a != 0
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= 3e-7 * max(abs(a), abs(b)) + 3e-45


class C22(Prop):
    id = 'C22'
    configs = ['default', 'compact', 'amalgam']
    quick = 60000
    thorough = 600000
    rule = ('a case is one to six calls of math:: functions on generated integer and float bit patterns, placed among other operands of an expression list, or a seeded run of std::rand over a generated range; '
            'non-trivial when a result is neither 0, infinite nor a NaN, or at least two different random numbers were drawn')
    assumptions = ['results may differ from the C library by a few parts in 10^7', 'random seeds are 1 .. 2^31-2']

    def num(self, s):
        k = s.draw(8)
        if k == 0:
            return s.int(-3, 3)
        if k == 1:
            return s.pick([2**31 - 1, -2**31, 65536, 1000000, -1, 2**24 + 1, -(2**24) - 3]) if s.draw(2) else s.int(-2**31, 2**31 - 1)
        if k == 2:
            return fbits(s.draw(2**32))
        if k == 3:
            return f32(s.int(-1000, 1000) / 1000.0)
        if k == 4:
            return f32(s.pick([0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -1.5, 2.5, 1e10, -1e10, 3.1415927, 88.0, -104.0, 1e-30, float('inf'), 8388607.5]))
        return f32(s.int(-10**6, 10**6) / 10.0**s.int(0, 5))

    def gen(self, s):
        cfg = s.pick(self.configs)
        if s.draw(6) == 5:
            k = s.draw(4)
            if k == 0:
                a, b = s.int(-20, 20), s.int(-20, 20)
            elif k == 1:
                a, b = s.int(-2**31, 2**31 - 1), s.int(-2**31, 2**31 - 1)
            elif k == 2:
                a, b = None, s.pick([0, 1, 5, 6, 100, -1, -7, 2**31 - 1])
            else:
                a = s.int(-1000, 1000)
                b = a + s.int(0, 5)
            return dict(kind='rand', cfg=cfg, a=a, b=b, seed=s.int(1, 2**31 - 2), n=s.pick([3, 40]))
        C = []
        for _ in range(s.int(1, 6)):
            f = s.pick(sorted(ONE) + ['pow', 'pow', 'fmod', 'fmod', 'atan2', 'atan2', 'ldexp', 'deg2rad', 'rad2deg', 'iscale', 'iscale'])
            n = 2 if f in ('pow', 'fmod', 'atan2', 'ldexp') else 3 if f == 'iscale' else 1
            a = [self.num(s) for _ in range(n)]
            if f == 'ldexp':
                a[1] = s.int(-200, 200) if s.draw(3) else s.int(-160, 140) + 0.5
            if f == 'iscale':
                for i in range(3):
                    if isinstance(a[i], float) and not -2.1e9 < a[i] < 2.1e9:
                        a[i] = s.int(-9, 9)
            C.append((f, a))
        return dict(kind='math', cfg=cfg, C=C)

    def want(self, f, a):
        x = [f32(float(v)) for v in a]
        if f in ONE:
            return ONE[f](x[0])
        if f == 'pow':
            return POW(x[0], x[1])
        if f == 'fmod':
            return FMOD(x[0], x[1])
        if f == 'atan2':        # documented as ( x, y )
            return ATAN2(x[1], x[0])
        if f == 'ldexp':
            return LDEXP(x[0], int(a[1]))
        if f == 'deg2rad':
            return f32(x[0] * math.pi / 180)
        if f == 'rad2deg':
            return f32(x[0] * 180 / math.pi)
        p, q, r = [int(v) for v in a]
        if r == 0:
            return 0
        n = abs(p * q) // abs(r)
        return w32(-n if (p * q < 0) != (r < 0) else n)

    def source(self, case):
        if case['kind'] == 'rand':
            call = 'std::rand( %d )' % case['b'] if case['a'] is None else 'std::rand( %d, %d )' % (case['a'], case['b'])
            return ('function seq() { var l[]; l[0] = 0; std::srand( %d ); for ( var i = 0; i < %d; ++i ) { l[i] = %s; } return l; }\nout( seq() );\nout( seq() );\n'
                    % (case['seed'], case['n'], call))
        o = ''
        for i, (f, a) in enumerate(case['C']):
            ps = ', '.join('abc'[:len(a)])
            o += 'function f%d( %s ) { var z = math::%s( %s ); out( a, math::%s( %s ), %s, z ); return z; }\n' % (i, ps, f, ps, f, ps, 'abc'[len(a) - 1])
        return o

    def run(self, case, eng):
        e = eng[case['cfg']]
        src = self.source(case)
        if case['kind'] == 'rand':
            r = e.script(src, stack=500)
            if r.cerr or r.err:
                raise Violation('error %s %s' % (r.cerr, r.err))
            ls = r.log.split('\n')[:-1]
            if len(ls) != 2 or ls[0] != ls[1]:
                raise Violation('[%s] the same seed gives %s' % (case['cfg'], ls))
            v = [int(x[1:]) for x in ls[0].strip('[]').split(',')]
            a, b = (0 if case['a'] is None else case['a']), case['b']
            if len(v) != case['n']:
                raise Violation('%d numbers' % len(v))
            for x in v:
                if not (a <= x <= b if a <= b else x == a):
                    raise Violation('[%s] std::rand over %d..%d gives %d' % (case['cfg'], a, b, x))
            if case['n'] == 40 and 0 < b - a:
                if len(set(v)) == 1 or (b - a > 10**6 and len(set(v)) < 36):
                    raise Violation('[%s] std::rand over %d..%d does not vary: %s' % (case['cfg'], a, b, v))
                if b - a == 1 and len(set(v)) != 2:
                    raise Violation('[%s] std::rand over %d..%d never reaches one of them: %s' % (case['cfg'], a, b, v))
            return len(set(v)) > 1, ['rand']
        ops = [['newstate', 0, 200, 1, -1, 0], ['compile', 0, 1, 1, src.encode()], ['run', 0, 0, 0, 0]]
        for i, (f, a) in enumerate(case['C']):
            ops.append(['call', 0, 'f%d' % i] + [b'i%d' % v if isinstance(v, int) else b'f%08x' % struct.unpack('<I', struct.pack('<f', v))[0] for v in a])
            ops.append(['log'])
        r = e.req(ops)
        nt = False

        def val(t):
            return int(t[1:]) if t[0] == 'i' else float('nan') if t == 'fnan' else fbits(int(t[1:], 16)) if t[0] == 'f' else t
        for i, (f, a) in enumerate(case['C']):
            w = self.want(f, a)
            t = r[4 + 2 * i][0].decode().split('\n')[0].split(' ')
            if len(t) != 4:
                raise Violation('[%s] math::%s%s prints %r' % (case['cfg'], f, tuple(a), t))
            g = [val(x) for x in t] + [val(r[3 + 2 * i][0].decode())]
            for x, y in ((g[0], a[0]), (g[2], a[-1])):
                if type(x) != type(y) or not (x == y or (x != x and y != y)):
                    raise Violation('[%s] around math::%s%s the argument became %r' % (case['cfg'], f, tuple(a), x))
            for x in (g[1], g[3], g[4]):
                if type(x) != type(w) or not (x == w if isinstance(w, int) else close(x, w)):
                    raise Violation('[%s] math::%s%s gives %r, C gives %r' % (case['cfg'], f, tuple(a), x, w))
            nt = nt or (w == w and w not in (0, float('inf'), float('-inf')))
        return nt, [f for f, a in case['C']]

    def render(self, case):
        return '// %s %s\n' % (case['cfg'], case.get('C', '')) + self.source(case)


PROP = C22()
