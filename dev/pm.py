#!/usr/bin/env python3
"""dev/pm.py PROP... < lines FILE#OLD#NEW[#K]: mutation trials, four at a time"""
import sys, subprocess, os
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__))


def one(l):
    p = l.rstrip('\n').split('#')
    f, o, n = p[:3]
    r = subprocess.run([H + '/mut.sh', f, o, n] + sys.argv[1:], env=dict(os.environ, K=p[3] if len(p) > 3 else '1'),
                       capture_output=True, text=True, stdin=subprocess.DEVNULL)
    out = [x for x in (r.stdout + r.stderr).splitlines() if x.strip() and not x.strip().startswith('path')]
    if 'DOES-NOT-COMPILE' in r.stdout:
        out = [x for x in out if 'error' in x][:2] + ['DOES-NOT-COMPILE']
    return '%-60s | %s' % ((o[:40] + ' -> ' + n[:40]).replace('\n', ' '), '  ## '.join(x.strip()[-90:] for x in [y for y in out if "VIOLATION" not in y][:2] or out[:2])[:230])


ls = [l for l in sys.stdin if l.strip() and l.count('#') >= 2]
with ThreadPoolExecutor(4) as ex:
    for x in ex.map(one, ls):
        print(x, flush=True)
