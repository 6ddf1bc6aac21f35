#!/usr/bin/env python3
"""mkseed.py <id> <property> <file> <needs> <what_it_breaks>; stdin: OLD\n====\nNEW[\n####\nOLD\n====\nNEW...]\n@@@@\ndemo.py
Writes seeded/<id>/ (patch.diff against /repo HEAD, demo.sh, demo.py, meta.json)."""
import json, os, subprocess, sys, shutil, tempfile
REPO, VD = os.environ.get('SREPO', '/repo'), os.environ.get('SVERIF', '/verif')
sid, prop, path, needs, breaks = sys.argv[1:6]
txt = sys.stdin.read()
edits, demo = txt.split('\n@@@@\n', 1)
d = f'{VD}/seeded/{sid}'
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp()
subprocess.run(['git', '-C', REPO, 'worktree', 'prune'], check=True)
for e in edits.split('\n####\n'):
    p = path
    if e.startswith('FILE '):
        first, e = e.split('\n', 1)
        p = first[5:].strip()
    old, new = e.split('\n====\n') if '\n====\n' in e else (e.split('\n====')[0], '')
    dst = f'{t}/b/{p}'
    if not os.path.exists(dst):
        for x in 'ab':
            os.makedirs(os.path.dirname(f'{t}/{x}/{p}'), exist_ok=True)
            open(f'{t}/{x}/{p}', 'wb').write(subprocess.run(['git', '-C', REPO, 'show', 'HEAD:' + p], check=True, capture_output=True).stdout)
    s = open(dst, newline='').read()
    if s.count(old) != 1:
        sys.exit(f'{sid}: old text found {s.count(old)} times in {p}:\n{old}')
    open(dst, 'w', newline='').write(s.replace(old, new))
r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=t, capture_output=True, text=True).stdout
open(d + '/patch.diff', 'w').write(r)
shutil.copy(VD + '/tools/demo_h.py', d + '/h.py')
open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
shutil.rmtree(t)
print(sid, 'written', r.count('\n'))
