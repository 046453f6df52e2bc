"""plant(id, prop, [(file, old, new, k)], needs, breaks, demo): writes seeded/<id>/ (developer tool)."""
import os, difflib, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def plant(id, prop, edits, needs, breaks, demo):
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    out, texts = '', {}
    for e in edits:
        f, o, n = e[:3]
        k = e[3] if len(e) > 3 else 1
        s = texts.setdefault(f, open('/repo/' + f).read())
        p = -1
        for _ in range(k):
            p = s.find(o, p + 1)
            assert p >= 0, (id, f, o)
        texts[f] = s[:p] + n + s[p + len(o):]
    for f, t in texts.items():
        s = open('/repo/' + f).read()
        out += ''.join(difflib.unified_diff(s.splitlines(1), t.splitlines(1), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(out)
    open(d + '/demo.cpp', 'w').write('#include "pfdemo.h"\n' + demo.lstrip())
    json.dump({'property': prop, 'needs': ' '.join(needs.split()), 'what_it_breaks': ' '.join(breaks.split())},
              open(d + '/meta.json', 'w'), indent=1)
    for x in ('rec.h', 'rec.cpp', 'pfdemo.h', 'demo.sh'):
        shutil.copy(V + '/dev/demo/' + x, d + '/' + x)
