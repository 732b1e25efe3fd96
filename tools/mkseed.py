#!/usr/bin/env python3
"""mkseed.py: writes /verif/seeded/* from tools/seeds.py (patches are made against /repo's HEAD)."""
import difflib, json, os, shutil, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, 'tools'))
from seeds import SEEDS
PRE = '''#!/bin/bash
# exits 0 if the described behaviour holds, 1 otherwise
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
bin=$PWD/target/debug/packetc
[ -x "$bin" ] || { echo "no binary"; exit 2; }
'''
for s in SEEDS:
    d = os.path.join(root, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    patch = ''
    for fn, edits in s['edits'].items():
        old = subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + fn]).decode()
        crlf = '\r\n' in old
        new = old.replace('\r\n', '\n')
        for a, b in edits:
            assert new.count(a) == 1, (s['id'], new.count(a), a)
            new = new.replace(a, b)
        if crlf:
            new = new.replace('\n', '\r\n')
        o, n = [x.split('\n') for x in (old, new)]
        o, n = [[l + '\n' for l in x[:-1]] + ([x[-1]] if x[-1] else []) for x in (o, n)]
        patch += 'diff --git a/%s b/%s\n' % (fn, fn) + ''.join(difflib.unified_diff(o, n, 'a/' + fn, 'b/' + fn))
    with open(os.path.join(d, 'patch.diff'), 'w', newline='') as f:
        f.write(patch)
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write(PRE + s['demo'].strip('\n') + '\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    if 'js' in s:
        with open(os.path.join(d, 'test.js'), 'w') as f:
            f.write(s['js'].strip('\n') + '\n')
        shutil.copy(os.path.join(root, 'tools', 'seedlib', 'run.js'), os.path.join(d, 'run.js'))
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
