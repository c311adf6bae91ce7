"""The scheduler runs every task, fairly, each as if it were alone."""
from ..core import *
from .. import lang, gen
from .c12 import TOK


def tag(src, n):
    """out( x ) -> out( n, x ), likewise tst::log( x ), whose result the programs do not use"""
    t = TOK.findall(src)
    o = []
    for i, x in enumerate(t):
        o.append(x)
        if x == '(' and i and (t[i - 1] == 'out' or t[i - 3:i] == ['tst', '::', 'log']):
            o.append(' %d, ' % n)
    return ''.join(o)


class C18(Prop):
    id = 'C18'
    configs = ['slices', 'cslices', 'amslices']
    quick = 8000
    thorough = 160000
    rule = ('a case is one to five generated programs (some yield, some end in an error) added to a scheduler at generated moments between ticks of generated slice lengths, some removed again; '
            'non-trivial when at least two were alive in the same tick')
    assumptions = ['the order of tasks within a tick is not specified']

    def gen(self, s):
        n = s.pick([1, 2, 3, 4, 5, 6])
        exact = s.draw(2)           # no instruction limit: only the yields suspend
        T = []
        for i in range(n):
            g = gen.Gen(s, yields=s.pick([4, 12, 25]) if exact or s.draw(2) else 0, funcs=2, stmts=s.pick([3, 6, 9]))
            p = g.program()
            src = tag(lang.Render().prog(p), 1000 + i)
            it = lang.Interp(p)
            it.cuts = []
            it.run()
            lines = [('L i%d %s' % (1000 + i, l[2:]) if l.startswith('L ') else 'i%d %s' % (1000 + i, l)) for l in it.out]
            err = s.draw(5) == 0
            if err:
                src += 'nosuchfunction( 1 );\n'
            T.append(dict(src=src, lines=lines, cuts=it.cuts + [len(lines)], err=err, own=s.draw(2)))
        ev = []
        todo = list(range(n))
        alive = []
        slices = s.pick([[0], [1, 2, 3], [5, 10], [40], [1, 100], [200]]) if not exact else [0]
        while todo or s.draw(5):
            k = s.draw(4)
            if todo and (k == 0 or not alive):
                i = todo.pop(0)
                ev.append(('add', i, s.pick(slices)))
                alive.append(i)
            elif k == 1 and alive and s.draw(3) == 0:
                ev.append(('rm', s.pick(alive)))
            elif k == 1 and s.draw(8) == 0:
                ev.append(('rmx',))
            else:
                ev.append(('tick', s.pick(slices)))
            if len(ev) > 60:
                break
        return dict(T=T, ev=ev, exact=exact, cfg=s.pick(self.configs), gc=s.pick([-1, 0, 300]))

    def run(self, case, eng):
        T = list(case['T'])
        # the engine is driven in one request; ids are handed out as they come, so look them up afterwards
        ops = [['seed', 1], ['sched', 0, 2000, case['gc']]]
        idx = []
        for ev in case['ev']:
            if ev[0] == 'add':
                t = T[ev[1]]
                ops.append(['compile', ev[1], 1, 1, t['src'].encode('latin-1')])
                idx.append(len(ops))
                ops.append(['addthread', 0, ev[1], ev[2], t['own']])
            elif ev[0] == 'rm':
                idx.append(len(ops))
                ops.append(['rmtag', 0, ev[1]])
            elif ev[0] == 'rmx':
                idx.append(len(ops))
                ops.append(['rmtask', 0, 1999999999])
            else:
                idx.append(len(ops))
                ops.append(['tick', 0, ev[1]])
            ops.append(['log'])
        extra = 0 if case['exact'] else 3
        for k in range(extra):
            idx.append(len(ops))
            ops += [['tick', 0, 0], ['log']]
        end = len(ops)
        # explicit yields may be left over: run to the end
        for k in range(0 if case['exact'] else max(len(t['cuts']) for t in T) + 1):
            ops += [['tick', 0, 0], ['log']]
        ops += [['killsched', 0]]
        r = eng[case['cfg']].req(ops)
        evs = list(case['ev']) + [('tick', 0)] * extra
        seg = {}            # next segment of each live task (exact mode)
        got = {}
        ids = {}
        dead = set()
        err = (0, 0)
        most = 0

        def out(i):
            o = {}
            for l in r[i][0].decode('latin-1').split('\n')[:-1]:
                try:
                    k = int((l[2:] if l.startswith('L ') else l)[1:5]) - 1000
                except ValueError:
                    k = None
                if k is None or not 0 <= k < len(T):
                    raise Violation('stray output %r' % l)
                o.setdefault(k, []).append(l)
                got.setdefault(k, []).append(l)
            return o
        for ev, i in zip(evs, idx):
            a = r[i]
            o = out(i + 1)
            if set(o) & dead:
                raise Violation('[%s] task %s ran after it was removed, had ended or failed' % (case['cfg'], sorted(set(o) & dead)))
            if ev[0] == 'add':
                k = ev[1]
                t = T[k]
                if r[i - 1][0] != b'0':
                    raise Violation('compile: %r' % r[i - 1])
                v = int(a[0])
                if set(o) - {k}:
                    raise Violation('adding task %d ran %s' % (k, sorted(o)))
                if v > 0 and v in ids.values():
                    raise Violation('task id %d handed out twice' % v)
                if case['exact']:
                    if o.get(k, []) != t['lines'][:t['cuts'][0]]:
                        raise Violation('[%s] adding task %d prints %r, expected %r' % (case['cfg'], k, o.get(k), t['lines'][:t['cuts'][0]]))
                    want = 1 if len(t['cuts']) > 1 else (-1 if t['err'] else 0)
                    if (v > 0 and want != 1) or (v <= 0 and want != v):
                        raise Violation('[%s] adding task %d gives %d, expected %s' % (case['cfg'], k, v, 'an id' if want == 1 else want))
                    if want == 1:
                        seg[k] = 1
                if v > 0:
                    ids[k] = v
                else:
                    dead.add(k)
                    if (v == -1) != t['err'] or got.get(k, []) != t['lines']:
                        raise Violation('[%s] adding task %d gives %d after %r' % (case['cfg'], k, v, got.get(k)))
            elif ev[0] == 'rmx':
                if a != [b'0']:
                    raise Violation('removing an unknown task gives %r' % a)
            elif ev[0] == 'rm':
                k = ev[1]
                if o:
                    raise Violation('removing ran something: %r' % o)
                live = k in seg if case['exact'] else (k not in dead and got.get(k, []) != T[k]['lines'])
                if live and a != [b'1']:
                    raise Violation('[%s] removing live task %d gives %r' % (case['cfg'], k, a))
                if (case['exact'] and not live or k in dead) and a != [b'0']:
                    raise Violation('[%s] removing task %d, which is gone, gives %r' % (case['cfg'], k, a))
                dead.add(k)
                T[k] = dict(T[k], removed=True)
                seg.pop(k, None)
            else:
                most = max(most, len(seg) if case['exact'] else sum(1 for k in ids if k not in dead and got.get(k, []) != T[k]['lines']))
                if case['exact']:
                    faults = []
                    for k in sorted(seg):
                        t = T[k]
                        j = seg[k]
                        want = t['lines'][t['cuts'][j - 1]:t['cuts'][j]]
                        if o.get(k, []) != want:
                            raise Violation('[%s] in this tick task %d prints %r, expected %r' % (case['cfg'], k, o.get(k, []), want))
                        seg[k] += 1
                        if seg[k] == len(t['cuts']):
                            del seg[k]
                            dead.add(k)
                            if t['err']:
                                faults.append((2, ids[k]))
                    e = (int(a[0]), int(a[1]))
                    if faults:
                        if e not in faults:
                            raise Violation('[%s] last error %r, expected one of %r' % (case['cfg'], e, faults))
                    elif e != err:
                        raise Violation('[%s] last error became %r' % (case['cfg'], e))
                    err = e
                else:
                    e = (int(a[0]), int(a[1]))
                    if e != err:
                        k = [x for x in ids if ids[x] == e[1]]
                        if e[0] != 2 or not k or not T[k[0]]['err'] or k[0] in dead or got.get(k[0], []) != T[k[0]]['lines']:
                            raise Violation('[%s] last error became %r' % (case['cfg'], e))
                        dead.add(k[0])
                        err = e
        for i in range(end, len(ops) - 1, 2):
            o = out(i + 1)
            if set(o) & dead:
                raise Violation('[%s] task %s ran after it was removed or had failed' % (case['cfg'], sorted(set(o) & dead)))
        for k, t in enumerate(T):
            g = got.get(k, [])
            if t.get('removed') or case['exact']:
                ok = g == t['lines'][:len(g)]
            else:
                ok = g == t['lines'] if k in ids or k in dead else not g
            if not ok:
                raise Violation('[%s] task %d printed %r, alone it prints %r' % (case['cfg'], k, g, t['lines']))
        if r[-1] != [b'0', b'0']:
            raise Violation('leak %r' % r[-1])
        return most >= 2, ['exact' if case['exact'] else 'sliced'] + (['error'] if any(t['err'] for t in T) else []) + (['removed'] if any(e[0] == 'rm' for e in case['ev']) else [])

    def render(self, case):
        return '// %s gc=%d %s\n' % (case['cfg'], case['gc'], case['ev']) + '\n'.join('// ---- task %d\n%s' % (i, t['src']) for i, t in enumerate(case['T']))


PROP = C18()
