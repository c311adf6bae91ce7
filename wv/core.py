"""Property-based testing core: choice-sequence source, engine processes,
parallel runner, shrinking, replay, evidence."""
import hashlib, json, os, random, resource, select, signal, struct, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = min(8, os.cpu_count() or 4)


class Violation(Exception):
    """The property does not hold on this case."""


class EngineCrash(Exception):
    def __init__(self, what, stderr):
        Exception.__init__(self, what)
        self.stderr = stderr


class Discard(Exception):
    """Case outside the property's domain (counted, never a failure)."""


# ---------------------------------------------------------------- choices
class Src:
    """A stream of bounded integer choices.  Fresh draws come from a PRNG and
    are recorded; a replay feeds a recorded (possibly edited) list back and
    answers 0 - always the simplest alternative - past its end."""
    __slots__ = ('rng', 'rec', 'pre', 'pos', 'fresh')

    def __init__(self, seed=None, choices=None):
        self.rec = []
        self.pre = choices
        self.pos = 0
        self.rng = random.Random(seed) if choices is None else None

    def draw(self, n):
        """integer in [0, n)"""
        if n <= 1:
            return 0
        if self.pre is None:
            v = self.rng.randrange(n)
        elif self.pos < len(self.pre):
            v = self.pre[self.pos]
            self.pos += 1
            if v >= n:
                v = v % n
        else:
            v = 0
        self.rec.append(v)
        if len(self.rec) > 200000:
            raise Discard('too many choices')
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def chance(self, num, den):
        """True with probability num/den; shrinks to False."""
        return self.draw(den) >= den - num

    def more(self, avg):
        """continue flag for lists of average length avg; shrinks to stop"""
        return self.draw(avg + 1) > 0

    def weighted(self, pairs):
        """pairs: [(weight, value)], first is the simplest"""
        t = 0
        for w, _ in pairs:
            t += w
        v = self.draw(t)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def bytes(self, n, alphabet=None):
        if alphabet:
            return bytes(self.pick(alphabet) for _ in range(n))
        return bytes(self.draw(256) for _ in range(n))

    def subset(self, seq):
        return [x for x in seq if self.draw(2)]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.draw(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


# ---------------------------------------------------------------- engines
def _enc(ops):
    out = [struct.pack('<I', len(ops))]
    for op in ops:
        out.append(struct.pack('<I', len(op)))
        for f in op:
            if isinstance(f, str):
                f = f.encode('latin-1')
            elif isinstance(f, int):
                f = b'%d' % f
            out.append(struct.pack('<I', len(f)))
            out.append(f)
    b = b''.join(out)
    return struct.pack('<I', len(b)) + b


def _unlimit():
    # the sanitizer reserves address space; only the generator side is limited
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


class Engine:
    def __init__(self, cfg, exe, cwd=None):
        self.cfg, self.exe, self.p, self.cwd = cfg, exe, None, cwd
        self.requests = 0
        self.wall = 0       # seconds; 0: only CPU time is limited

    def start(self):
        self.err = tempfile.TemporaryFile()
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = ('detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=1:'
                               'symbolize=%d:quarantine_size_mb=16:malloc_context_size=6:'
                               'handle_sigfpe=1:detect_stack_use_after_return=0:max_allocation_size_mb=3000'
                               % (1 if os.environ.get('WV_SYM') else 0))
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=env, cwd=self.cwd, bufsize=0, preexec_fn=_unlimit)
        self.requests = 0

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.stdout.close()
            except Exception:
                pass
            self.p.kill()
            self.p.wait()
            self.err.close()
            self.p = None

    def _read(self, n):
        out = b''
        f = self.p.stdout
        while len(out) < n:
            d = f.read(n - len(out))
            if not d:
                self.crashed()
            out = d if not out else out + d
        return out

    def crashed(self):
        rc = self.p.wait()
        self.err.seek(0)
        e = self.err.read().decode('utf8', 'replace')
        self.stop()
        head = ''
        for l in e.splitlines():
            if 'ERROR: AddressSanitizer' in l or 'ENGINE-' in l or 'Assertion' in l:
                head = l.strip()
                break
        raise EngineCrash('engine[%s] died rc=%s %s' % (self.cfg, rc, head[:200]), e[:6000])

    def req(self, ops):
        if self.p is None:
            self.start()
        self.requests += 1
        try:
            self.p.stdin.write(_enc(ops))
        except (BrokenPipeError, OSError):
            self.crashed()
        if self.wall and not select.select([self.p.stdout], [], [], self.wall)[0]:
            self.stop()
            raise EngineCrash('engine[%s] is blocked: no answer within %d s' % (self.cfg, self.wall), '')
        n, = struct.unpack('<I', self._read(4))
        b = self._read(n)
        pos = 4
        nops, = struct.unpack_from('<I', b, 0)
        res = []
        for _ in range(nops + 1):
            nf, = struct.unpack_from('<I', b, pos)
            pos += 4
            fs = []
            for _ in range(nf):
                l, = struct.unpack_from('<I', b, pos)
                pos += 4
                fs.append(b[pos:pos + l])
                pos += l
            res.append(fs)
        return res  # last entry: [live leak, byte leak]

    # -- convenience
    def script(self, source, flags=1, gc=-1, stack=0, slice=0, libs=1, ymode=0, maxy=100000, forceyield=0, cap=0):
        if isinstance(source, str):
            source = source.encode('latin-1')
        r = self.req([['script', flags, gc, stack, slice, libs, ymode, maxy, source, forceyield] + ([cap] if cap else [])])
        return ScriptResult(r[0], self.cfg)


class ScriptResult:
    __slots__ = ('cfg', 'cerr', 'err', 'ret', 'log', 'yields', 'leak', 'leakb', 'peak', 'size', 'msg', 'cleak')

    def __init__(self, f, cfg):
        self.cfg = cfg
        self.cerr = int(f[0])
        self.err = self.ret = self.log = self.yields = None
        self.leak = 0
        self.msg = b''
        if self.cerr:
            self.cleak, self.msg = f[1], f[2]
            return
        self.err, self.ret, self.log = int(f[1]), f[2].decode('latin-1'), f[3].decode('latin-1')
        self.yields, self.leak, self.leakb, self.peak, self.size = int(f[4]), int(f[5]), int(f[6]), int(f[7]), int(f[8])

    def beh(self):
        """the observable behaviour"""
        return (self.cerr, self.err, self.ret, self.log)


class Engines(dict):
    def __init__(self, paths, cwd=None):
        dict.__init__(self)
        for c, p in paths.items():
            self[c] = Engine(c, p, cwd)

    def stop(self):
        for e in self.values():
            e.stop()


# ---------------------------------------------------------------- property base
class Prop:
    id = None
    title = ''
    configs = ['default']
    quick = 2000
    thorough = 20000
    quick_cap = 60
    thorough_cap = 600
    level = 'exploration'
    rule = ''
    assumptions = []
    respawn = 300
    cpu_hang = 20

    def setup(self, eng):
        """once per worker"""

    def gen(self, s):
        raise NotImplementedError

    def run(self, case, eng):
        """raise Violation, or return (nontrivial: bool, classes: [str])"""
        raise NotImplementedError

    def render(self, case):
        return repr(case)

    def regressions(self):
        """fixed cases run before the search: [(name, case)]"""
        return []

    def finding(self, fid, eng):
        """does the listed finding still fail?"""
        raise NotImplementedError

    def known(self, eng):
        """listed, unrepaired findings: yields (id, what, still_fails)"""
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            w = l.split(None, 3)
            if len(w) == 4 and w[0] == 'finding:' and w[1] == 'property=' + self.id:
                yield w[2], w[3].strip(), self.finding(w[2], eng)


def case_seed(seed, pid, i):
    return int.from_bytes(hashlib.sha256(('%s/%s/%d' % (seed, pid, i)).encode()).digest()[:8], 'little')


def execute(prop, eng, choices=None, seed=None):
    """-> (status, info, src, case) status in ok/discard/fail"""
    s = Src(seed=seed, choices=choices)
    case = None
    try:
        case = prop.gen(s)
        nt, classes = prop.run(case, eng)
        return 'ok', (nt, classes), s, case
    except Discard as d:
        return 'discard', str(d), s, case
    except (MemoryError, RecursionError) as d:
        return 'discard', repr(d), s, case
    except Violation as v:
        return 'fail', str(v), s, case
    except EngineCrash as c:
        return 'fail', 'CRASH %s\n%s' % (c, c.stderr), s, case


def run_fixed(prop, eng, case):
    try:
        prop.run(case, eng)
        return None
    except Discard:
        return None
    except Violation as v:
        return str(v)
    except EngineCrash as c:
        return 'CRASH %s\n%s' % (c, c.stderr)


def shrink(prop, eng, choices, deadline, maxruns=4000):
    runs = [0]
    best = list(choices)

    def fails(c):
        if runs[0] >= maxruns or time.time() > deadline:
            return False
        runs[0] += 1
        try:
            st, info, s, _ = execute(prop, eng, choices=c)
        except Exception:
            return False
        if st == 'fail':
            fails.rec = s.rec
            return True
        return False

    def accept():
        # the recorded list is the canonical one (clamped, unused tail gone)
        return list(fails.rec)

    improved = True
    while improved and runs[0] < maxruns and time.time() < deadline:
        improved = False
        for size in (256, 128, 64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best)
            while i > 0:
                j = max(0, i - size)
                c = best[:j] + best[i:]
                if len(c) < len(best) and fails(c) and len(fails.rec) <= len(best):
                    best = accept()
                    improved = True
                    i = min(j, len(best))
                else:
                    i -= max(1, size // 2 if size > 1 else 1)
                if runs[0] >= maxruns or time.time() > deadline:
                    break
        i = 0
        while i < len(best):
            if best[i]:
                lo, v = 0, best[i]
                c = list(best); c[i] = 0
                if fails(c) and (len(fails.rec), fails.rec) < (len(best), best):
                    best = accept(); improved = True
                else:
                    for nv in (v // 2, v - 1):
                        if 0 < nv < v:
                            c = list(best); c[i] = nv
                            if fails(c) and (len(fails.rec), fails.rec) < (len(best), best):
                                best = accept(); improved = True
                                break
            i += 1
            if runs[0] >= maxruns or time.time() > deadline:
                break
    return best, runs[0]


def _worker(prop, paths, seed, wi, nw, count, t_end, conn, stop, cwd):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    eng = Engines(paths, cwd and os.path.join(cwd, 'w%d' % wi))
    if cwd:
        os.makedirs(os.path.join(cwd, 'w%d' % wi), exist_ok=True)
    st = dict(evals=0, discards=0, nontrivial=set(), classes={}, samples=[], fail=None, unrepro=0, error=None, done=True)
    try:
        prop.setup(eng)
        since = []
        i = wi
        while i < count:
            if stop.is_set():
                break
            if time.time() > t_end:
                st['done'] = False
                break
            sd = case_seed(seed, prop.id, i)
            status, info, s, case = execute(prop, eng, seed=sd)
            since.append(i)
            st['evals'] += 1
            if status == 'discard':
                st['discards'] += 1
            elif status == 'ok':
                nt, classes = info
                for c in classes:
                    st['classes'][c] = st['classes'].get(c, 0) + 1
                if nt:
                    k = hashlib.blake2b(struct.pack('<%dQ' % len(s.rec), *s.rec), digest_size=8).digest()
                    if k not in st['nontrivial']:
                        st['nontrivial'].add(k)
                        if len(st['samples']) < 2 and len(s.rec) < 4000:
                            st['samples'].append(prop.render(case)[:3000])
            else:
                # confirm in fresh engines, three times
                def confirm(ch, n=3):
                    msg = None
                    for _ in range(n):
                        eng.stop()
                        a, b, _, _ = execute(prop, eng, choices=ch)
                        if a != 'fail':
                            return None
                        msg = b
                    return msg
                if confirm(list(s.rec)) is not None:
                    if stop.is_set():
                        break
                    best, runs = shrink(prop, eng, s.rec, time.time() + float(os.environ.get('WV_SHRINK', '25')))
                    m = confirm(best)
                    if m is None:
                        best = list(s.rec)
                        m = confirm(best)
                    if m is not None:
                        _, _, _, cs = execute(prop, eng, choices=best)
                        st['fail'] = dict(kind='case', choices=best, message=m, rendered=prop.render(cs) if cs is not None else '',
                                          index=i, shrink_runs=runs)
                        break
                else:
                    # depends on earlier cases in the same process?
                    def hist(idx):
                        eng.stop()
                        for k in idx[:-1]:
                            execute(prop, eng, seed=case_seed(seed, prop.id, k))
                        return execute(prop, eng, seed=case_seed(seed, prop.id, idx[-1]))[0] == 'fail'
                    idx = list(since)
                    if hist(idx) and hist(idx) and hist(idx):
                        end = time.time() + 20
                        k = 1
                        while k < len(idx) and time.time() < end:
                            short = idx[-1 - k:]
                            if hist(short):
                                idx = short
                                break
                            k *= 2
                        st['fail'] = dict(kind='history', seed=seed, indices=idx, message=info, rendered=prop.render(case) if case is not None else '')
                        break
                    st['unrepro'] += 1
                    st.setdefault('unrepro_msgs', []).append(info[:500])
                    eng.stop()
                    since = []
            if len(since) >= prop.respawn:
                eng.stop()
                since = []
            i += nw
    except Exception:
        st['error'] = traceback.format_exc()
    finally:
        eng.stop()
    conn.send(st)
    conn.close()


def run_check(prop, paths, seed, tier, t0, extra_build_fail=None):
    """Runs the whole check; returns exit code."""
    count = prop.quick if tier == 'quick' else prop.thorough
    cap = prop.quick_cap if tier == 'quick' else prop.thorough_cap
    scale = float(os.environ.get('WV_SCALE', '1'))
    count = max(8, int(count * scale))
    os.environ['WV_HANG'] = str(prop.cpu_hang)
    fails = []
    known_lines = []
    cwd = None
    tmp = tempfile.mkdtemp(prefix='wv_%s_' % prop.id)
    cwd = tmp
    reg_n = 0
    try:
        eng = Engines(paths, cwd)
        try:
            for name, case in prop.regressions():
                reg_n += 1
                m = run_fixed(prop, eng, case)
                if m is not None:
                    ok = True
                    for _ in range(2):
                        eng.stop()
                        if run_fixed(prop, eng, case) is None:
                            ok = False
                    if ok:
                        fails.append(dict(kind='regression', name=name, message=m, rendered=prop.render(case)))
                        break
            for fid, what, still in prop.known(eng):
                if still:
                    known_lines.append('KNOWN-FINDING: property=%s %s: %s' % (prop.id, fid, what))
        finally:
            eng.stop()
        stats = []
        if not fails:
            ctx = mp.get_context('fork')
            stop = ctx.Event()
            ws = []
            t_end = time.time() + cap
            for wi in range(NPROC):
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=_worker, args=(prop, paths, seed, wi, NPROC, count, t_end, b, stop, cwd))
                p.start()
                b.close()
                ws.append((p, a))
            pend = dict((a.fileno(), (p, a)) for p, a in ws)
            from multiprocessing.connection import wait
            conns = [a for _, a in ws]
            while conns:
                for c in wait(conns):
                    try:
                        st = c.recv()
                    except EOFError:
                        st = dict(evals=0, discards=0, nontrivial=set(), classes={}, samples=[], fail=None, unrepro=0,
                                  error='worker died', done=False)
                    conns.remove(c)
                    stats.append(st)
                    if st['fail']:
                        stop.set()
            for p, _ in ws:
                p.join(30)
                if p.is_alive():
                    p.kill()
    finally:
        subprocess.run(['rm', '-rf', tmp])
    errors = [s['error'] for s in stats if s['error']]
    for s in stats:
        if s['fail']:
            fails.append(s['fail'])
    ev = sum(s['evals'] for s in stats)
    nt = set()
    classes = {}
    samples = []
    for s in stats:
        nt |= s['nontrivial']
        for k, v in s['classes'].items():
            classes[k] = classes.get(k, 0) + v
        samples += s['samples'][:1]
    for l in known_lines:
        print(l)
    cov = dict(evaluations=ev, distinct_nontrivial=len(nt), rule=prop.rule, samples=samples[:4],
               discarded=sum(s['discards'] for s in stats), classes=dict(sorted(classes.items())),
               regression_cases=reg_n, planned_cases=count, completed=all(s.get('done') for s in stats) if stats else False,
               unreproduced=sum(s['unrepro'] for s in stats), configurations=sorted(paths))
    if prop.level == 'fault_enumeration' and 'faults' in classes:
        cov['faults_injected'] = classes['faults']
    evd = dict(property=prop.id, tier=tier, seed=int(seed), level=prop.level, coverage=cov,
               assumptions=prop.assumptions, wall_s=round(time.time() - t0, 2), violations=len(fails))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop.id + '.json'), 'w') as f:
        json.dump(evd, f, indent=1)
    um = [m for s in stats for m in s.get('unrepro_msgs', [])]
    if um:
        sys.stderr.write('unreproduced: %s\n' % um[:3])
    if fails:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        fl = min(fails, key=lambda f: len(f.get('choices', [])))
        path = os.path.join(VERIF, 'replay', '%s_%s_%s.json' % (prop.id, tier, seed))
        fl['property'] = prop.id
        with open(path, 'w') as f:
            json.dump(fl, f, indent=1)
        print('--- minimal failing case ---')
        print(fl['rendered'][:6000])
        print('--- ' + fl['message'][:3000])
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1
    if errors:
        sys.stderr.write('CHECK ERROR\n' + errors[0])
        return 2
    print('OK property=%s tier=%s cases=%d nontrivial=%d wall=%.1fs %s' %
          (prop.id, tier, ev, len(nt), time.time() - t0, '' if cov['completed'] else '(wall cap reached)'))
    return 0


def replay(prop, paths, path):
    fl = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix='wv_%s_' % prop.id)
    eng = Engines(paths, tmp)
    try:
        if fl['kind'] == 'case':
            st, info, s, case = execute(prop, eng, choices=fl['choices'])
        elif fl['kind'] == 'history':
            for k in fl['indices']:
                st, info, s, case = execute(prop, eng, seed=case_seed(fl['seed'], prop.id, k))
        else:
            case = dict(prop.regressions())[fl['name']]
            m = run_fixed(prop, eng, case)
            st, info = ('fail', m) if m is not None else ('ok', None)
    finally:
        eng.stop()
        subprocess.run(['rm', '-rf', tmp])
    print(prop.render(case) if case is not None else '')
    print(st, info)
    if st == 'fail':
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1
    return 0
