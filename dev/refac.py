#!/usr/bin/env python3
"""dev/refac.py FILE [PROP...]: behaviour-preserving edits that must leave the checks quiet. FILE is Python calling
t(name, [(file, old, new), ...]); edits are applied to a scratch copy of /repo."""
import subprocess, os, shutil, sys, tempfile
props = sys.argv[2:]


def t(name, edits):
    d = tempfile.mkdtemp(prefix='/tmp/ref.')
    subprocess.run('git -C /repo archive HEAD | tar x -C ' + d, shell=True, check=True)
    for f, o, n in edits:
        p = d + '/' + f
        s = open(p).read()
        if o not in s:
            print(name, 'NOT FOUND', f, repr(o[:60]))
            shutil.rmtree(d)
            return
        open(p, 'w').write(s.replace(o, n, 1))
    env = dict(os.environ, PFSTAT_REPO=d, PFSTAT_EVID=d + '/_ev')
    ps = props or sorted(x[:-3].upper() for x in os.listdir('pfstat/props') if x[0] == 'p' and x[1:-3].isdigit())
    r = subprocess.run('python3 -m pfstat.extract 2>&1 >/dev/null | grep -m2 error: ; echo %s | tr " " "\\n" | xargs -P8 -I{} '
                       'sh -c "python3 check.py {} 2>&1 | grep -v \' 0 violations, 0 known\' | cut -c1-300"' % ' '.join(ps),
                       shell=True, env=env, capture_output=True, text=True)
    print(name, '|', (r.stdout + r.stderr).strip() or 'quiet', flush=True)
    shutil.rmtree(d)


P = 'parameter/'
exec(open(sys.argv[1]).read())
