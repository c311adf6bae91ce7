#!/usr/bin/env python3
"""wr.py [-c cfg,cfg] [-l] source|file : run a script on engines and print the result"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from wv import build, core
os.environ['WV_SYM']='1'
a = sys.argv[1:]
cf = ['default', 'compact']
kw = {}
while a and a[0].startswith('-'):
    if a[0] == '-c': cf = a[1].split(','); a = a[2:]
    elif a[0] == '-k':
        k, v = a[1].split('='); kw[k] = int(v); a = a[2:]
    else:
        sys.exit(__doc__)
src = open(a[0]).read() if os.path.exists(a[0]) else a[0]
p = build.build(cf)
for c, e in core.Engines(p).items():
    try:
        r = e.script(src, **kw)
        print('[%s] cerr=%s %s err=%s ret=%s leak=%s yields=%s\n%s' % (c, r.cerr, r.msg.decode('latin-1'), r.err, r.ret, r.leak, r.yields, r.log))
    except core.EngineCrash as x:
        print('[%s] CRASH %s\n%s' % (c, x, x.stderr[:2500]))
    e.stop()
