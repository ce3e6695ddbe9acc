#!/usr/bin/env python3
"""mkseed.py SPEC.py   Make /verif/seeded/<id> from a spec: a list S of dicts
id, property, file, old, new (or edits: [(file, old, new)]), needs, breaks, demo (Rust source)"""
import json, os, shutil, subprocess, sys
R = os.environ.get('REPO', '/repo')
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns['S']:
    d = f"/verif/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    edits = s.get('edits') or [(s['file'], s['old'], s['new'])]
    for f, old, new in edits:
        p = R + '/' + f
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', R, 'diff'], text=True)
    subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.rs', 'w').write(s['demo'])
    shutil.copy(s.get('template', '/verif/tools/demo.sh'), d + '/demo.sh')
    os.chmod(d + '/demo.sh', 0o755)
