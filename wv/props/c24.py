"""Layout, comments, redundant parentheses and the choice of names do not change what a program means."""
import re
from ..core import *
from .. import lang, gen
from .c12 import TOK

WS = [' ', '  ', '\n', '\t', '\r\n', ' \n\t ', '\n\n\n', '/**/', '/* a comment */', '// line\n', '/* "quoted" */', "// it's\n", '/* // */', '// /*\n', '/***/', '/* * / */', '//\n', ' /*\n*/ ',
      '// out( 1 ); }\n', '/* ; } */']
KEEP = set('''var if else for while do switch case default break continue return function unit struct new enum export goto global yield true false null int float out argc hsum hstr hhalf hnone
 husr7 husr9 hctx main _count _hash _exists _remove this'''.split())
NEW = ['a', 'x_', '_u', 'Q', 'zz9', 'returned', 'iff', 'newx', 'varx', 'do_', 'A1B2', 'long_name_%d' % 5, 'forx', 'In', 'caseX', 'structure', 'xreturn', 'int_', 'floaty', 'null0', 'truely', 'yields']


def tokens(src):
    return [t for t in TOK.findall(src)]


class C24(Prop):
    id = 'C24'
    configs = ['default', 'compact', 'amalgam']
    quick = 15000
    thorough = 400000
    rule = ('a case is a generated program and a rewriting of its layout (white space and comments inserted, replaced or dropped between its tokens) or of its names (variables, functions, parameters, '
            'structures and members); images must be equal byte for byte after the former, behaviour after the latter; non-trivial when the text changed')
    assumptions = []

    def gen(self, s):
        g = gen.Gen(s, gotos=s.draw(2), **s.pick([dict(), dict(funcs=3, stmts=6), dict(loops=0, stmts=4, funcs=1)]))
        p = g.program()
        r = lang.Render()
        r.bare = lambda: s.draw(2)
        src = r.prog(p)
        it = lang.Interp(p)
        it.run()
        kind = s.pick(['layout', 'layout', 'names'])
        t = tokens(src)
        if kind == 'layout':
            out = []
            rate = s.pick([3, 10, 40])
            pend = False            # white space was here
            prev = ''
            for x in t:
                if x.isspace():
                    pend = True
                    continue
                glue = prev and (x == '::' or (prev[-1] in WORD and x[0] in WORD) or (prev[-1] in OPS and x[0] in OPS) or (prev[-1] in DIG and x[0] == '.') or (prev[-1] == '.' and x[0] in DIG)
                                 or (prev[-1] in DIG and x[0] in WORD))
                if prev:
                    if s.draw(rate) == 0 and not (prev in NOSPACE_AFTER or x in NOSPACE_BEFORE):
                        if prev[-1] == '/':
                            out.append(' ')
                        out.append(s.pick(WS))
                        if s.draw(4) == 0:
                            out.append(s.pick(WS))
                    elif pend:
                        if glue or s.draw(4):
                            out.append(' ')
                out.append(x)
                prev = x
                pend = False
            new = ''.join(out)
            if s.draw(3) == 0:
                new = s.pick(WS) + new
            new += s.pick(['', '', ' ', '\n', '// end', '/* end */', '\t'])
        else:
            ids = sorted({x for x in t if re.match(r'[A-Za-z_]', x) and x not in KEEP})
            # parts of library names stay
            lib = set(re.findall(r'(\w+)::', src)) | set(re.findall(r'::(\w+)', re.sub(r'(?<!\w)::', ' ', src)))
            ids = [x for x in ids if x not in lib]
            ch = [x for x in ids if s.draw(2)]
            pool = s.shuffle([n for n in NEW + ['n%d' % i for i in range(len(ch))] if n not in ids])
            m = dict(zip(ch, pool))
            new = ''.join(m.get(x, x) for x in t)
            strs = {x[1:-1] for x in t if x[0] == '"'}
            if strs & (set(ids) | set(m.values())):
                raise Discard('a name is also a string (h.x is h["x"])')
        return dict(kind=kind, src=src, new=new, log=it.log(), cfg=s.pick(self.configs), flags=s.pick([0, 0, 1, 8]))

    def run(self, case, eng):
        e = eng[case['cfg']]
        r = e.req([['compile', 0, case['flags'], 1, case['src'].encode('latin-1')], ['compile', 1, case['flags'], 1, case['new'].encode('latin-1')]])
        if r[0][0] != b'0' or r[1][0] != b'0':
            raise Violation('[%s] compiles: %r, rewritten: %r' % (case['cfg'], r[0], r[1]))
        r = e.req([['compile', 0, case['flags'], 1, case['src'].encode('latin-1')], ['compile', 1, case['flags'], 1, case['new'].encode('latin-1')], ['getbuf', 0], ['getbuf', 1],
                   ['newstate', 0, 2000, 1, -1, 0], ['run', 0, 0, 1, 0], ['log']])
        if case['kind'] == 'layout' and r[2] != r[3]:
            raise Violation('[%s] the layout changes the image' % case['cfg'])
        if r[5][:2] != [b'ok', b'0'] or r[6][0].decode('latin-1') != case['log']:
            raise Violation('[%s] rewritten program: %r\n got: %s\nwant: %s' % (case['cfg'], r[5], r[6][0].decode('latin-1'), case['log']))
        return case['src'] != case['new'], [case['kind']]

    def render(self, case):
        return '// %s %s flags=%d\n%s\n// ---- rewritten\n%s' % (case['cfg'], case['kind'], case['flags'], case['src'], case['new'])


WORD = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')
DIG = set('0123456789')
OPS = set('+-*/%&|^<>=!~:')
NOSPACE_AFTER = {'::', '.'}
NOSPACE_BEFORE = {'::', '.'}

PROP = C24()
