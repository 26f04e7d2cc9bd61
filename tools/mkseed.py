"""mkseed.py ID PROPERTY FILE <<< python dict literal: helper to write a planted bug.
usage: mkseed.py spec.py   where spec.py defines SEEDS = {id: dict(prop=, edits=[(file, old, new)], needs=, breaks=, demo=c++ text or None, sh=extra script)}"""
import sys, os, json, subprocess, tempfile, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
W = '/tmp/seedwt'
if not os.path.isdir(W):
    subprocess.check_call(['git', 'clone', '-q', '/repo', W])
CPP = '''#!/bin/bash
set -e
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
g++ -std=c++20 -O1 -g %(flags)s -I/repo/include -I/repo/_build/include %(inc)s "$here/demo.cpp" -o "$w/demo" -L/repo/_build %(libs)s -lpodio -lpthread -Wl,-rpath,/repo/_build
cd "$w"
timeout 120 ./demo
'''
for i, s in ns['SEEDS'].items():
    if only and i not in only: continue
    subprocess.check_call(['git', '-C', W, 'fetch', '-q', 'origin'])
    subprocess.check_call(['git', '-C', W, 'reset', '-q', '--hard', 'origin/HEAD'])
    for f, old, new in s['edits']:
        p = os.path.join(W, f); t = open(p).read()
        assert t.count(old) == 1, (i, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    d = f'/verif/seeded/{i}'
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', W, 'diff'], text=True))
    subprocess.check_call(['git', '-C', W, 'reset', '-q', '--hard', 'origin/HEAD'])
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    if s.get('demo'):
        open(d + '/demo.cpp', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(CPP % dict(flags=s.get('flags', ''), inc=s.get('inc', ''), libs=s.get('libs', '')))
    else:
        open(d + '/demo.sh', 'w').write(s['sh'])
        for n, t in s.get('files', {}).items():
            open(d + '/' + n, 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
    print(i)
