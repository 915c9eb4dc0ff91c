#!/usr/bin/env python3
"""Apply each planted change of seeded/ to /repo, run the check of its property, undo it.   seeds.py [name-prefix ...]  [-a: all checks]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != '-a']
allc = '-a' in sys.argv
res = {}
for s in sorted(os.listdir(V + '/seeded')):
    if args and not any(s.startswith(a) for a in args):
        continue
    p = json.load(open(V + '/seeded/%s/meta.json' % s))['property']
    ids = ['C%02d' % i for i in range(1, 25)] if allc else [p]
    r = subprocess.run(['git', '-C', '/repo', 'apply', V + '/seeded/%s/patch.diff' % s])
    assert r.returncode == 0, s
    try:
        for i in ids:
            t = time.time()
            o = subprocess.run([sys.executable, V + '/run.py', 'check', i], cwd=V, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            hit = any(l.startswith('VIOLATION property=%s ' % i) for l in o.stdout.splitlines())
            last = [l for l in o.stdout.splitlines() if l.strip()][-1][:160]
            res.setdefault(s, {})[i] = (o.returncode, hit)
            print('%-32s %s rc=%d %s %.0fs | %s' % (s, i, o.returncode, 'CAUGHT' if hit and o.returncode == 1 else 'missed' if o.returncode == 0 else 'ERROR', time.time() - t, last), flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
