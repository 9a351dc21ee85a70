#!/usr/bin/env python3
"""mkseed.py SPEC.py: builds seeded/<id>/ folders from a list of planted bugs (development tool)
SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)...], demo=python source, needs, breaks)]"""
import json, os, runpy, subprocess, sys, tempfile
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    d = os.path.join('/verif/seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
    for f, old, new in s['edits']:
        p = os.path.join(w, 'r', f)
        t = open(p, newline='').read()
        assert t.count(old) == 1, (s['id'], f, old, t.count(old))
        open(p, 'w', newline='').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
    assert diff
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.py', 'w').write(s['demo'].strip() + '\n')
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo; exits 0 when the behaviour is right
R=$(pwd)
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir "$W/run"
cd "$W/run" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=%s PYTHONPATH="$R" /opt/venv/bin/python -W ignore "$D/demo.py"
''' % s.get('hashseed', '0'))
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    subprocess.call(['/bin/rm', '-rf', w])
    print(s['id'])
