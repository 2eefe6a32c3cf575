"""tools/newseed.py ID PROP FILE 'old' 'new' needs breaks  <demo python on stdin>"""
import sys, os, json, subprocess
i, prop, f, old, new, needs, breaks = sys.argv[1:8]
d = '/verif/seeded/' + i
os.makedirs(d, exist_ok=True)
p = '/repo/' + f
s = open(p).read()
old = old.encode().decode('unicode_escape'); new = new.encode().decode('unicode_escape')
assert s.count(old) == 1, s.count(old)
open(p, 'w').write(s.replace(old, new))
open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout)
subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.py', 'w').write(sys.stdin.read())
open(d + '/demo.sh', 'w').write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=$PWD\nexec /opt/venv/bin/python "$D/demo.py"\n')
