"""mkseed.py ID PROP FILE 'needs' 'breaks' < stdin: OLD\n=====\nNEW\n#####\ndemo python   (development helper)"""
import sys, os, subprocess, json, shutil, tempfile
ID, PROP, FILE, needs, breaks = sys.argv[1:6]
txt = sys.stdin.read()
edits, demo = txt.split('\n#####\n')
d = tempfile.mkdtemp(prefix='mkseed_')
src = open('/repo/' + FILE).read()
new = src
for ed in edits.split('\n&&&&&\n'):
    old, nw = ed.split('\n=====\n')
    old = old.strip('\n'); nw = nw.strip('\n')
    assert new.count(old) == 1, (new.count(old), old)
    new = new.replace(old, nw)
for k, v in (('a', src), ('b', new)):
    os.makedirs(os.path.join(d, k, os.path.dirname(FILE)))
    open(os.path.join(d, k, FILE), 'w').write(v)
p = subprocess.run(['diff', '-u', 'a/' + FILE, 'b/' + FILE], cwd=d, capture_output=True, text=True).stdout
shutil.rmtree(d)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded', '') + ID
os.makedirs(out, exist_ok=True)
lines = p.split('\n')
lines[0] = '--- a/' + FILE
lines[1] = '+++ b/' + FILE
open(out + '/patch.diff', 'w').write('\n'.join(lines))
open(out + '/demo.py', 'w').write(demo)
open(out + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\n'
    'export PYTHONPATH="$PWD:$PYTHONPATH"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
json.dump({'property': PROP, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
