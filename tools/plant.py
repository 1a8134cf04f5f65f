"""plant.py ID PROPERTY FILE NEEDS BREAKS  < 'old\n====\nnew\n====\ndemo' : write /verif/seeded/ID"""
import sys, os, subprocess, json, shutil
sid, prop, fn, needs, breaks = sys.argv[1:6]
parts = sys.stdin.read().split('\n====\n')
pairs, demo = parts[:-1], parts[-1]
d = f'/tmp/w/seed/p{os.getpid()}'
subprocess.run(['cp', '-a', '/repo', d], check=True)
for k in range(0, len(pairs), 2):
    old, new = pairs[k].strip('\n'), pairs[k + 1].strip('\n')
    p = os.path.join(d, fn)
    s = open(p).read()
    n = int(os.environ.get('NTH', '0'))
    assert old in s, old
    if s.count(old) > 1: print('count', s.count(old))
    q = s.split(old)
    s = old.join(q[:n + 1]) + new + old.join(q[n + 1:])
    open(p, 'w').write(s)
out = f'/verif/seeded/{sid}'
os.makedirs(out, exist_ok=True)
diff = subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True).stdout
open(out + '/patch.diff', 'w').write(diff)
open(out + '/demo.py', 'w').write(demo)
open(out + '/demo.sh', 'w').write('#!/bin/bash\n# Run with cwd /repo: fails if the property is broken\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 CUDA_VISIBLE_DEVICES=\nexec timeout 250 /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"\n')
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + '/meta.json', 'w'), indent=1)
shutil.rmtree(d)
