#!/usr/bin/env python3
# dev.py BIN [seed] [feature]: build, record, validate, summarise rejects by (op, type)
import sys, os, json, collections, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if len(sys.argv) > 2: os.environ['VERIF_SEED'] = sys.argv[2]
import run as R
b = sys.argv[1]; feat = sys.argv[3] if len(sys.argv) > 3 else ''
t = time.time()
R.build_java(); R.build_rust([b], ((feat,),) if feat else ())
t1 = time.time()
w = os.path.join(R.B, 'run', 'dev-' + b); os.makedirs(w, exist_ok=True)
tr = w + '/t.ndjson'
env = {}
for a in sys.argv[4:]:
    k, v = a.split('='); env[k] = v
print('record', R.record(R.B + '/bin' + ('-' + feat if feat else '') + '/' + b, tr, env=env), 'build %.1f' % (t1 - t))
t2 = time.time()
r = R.validate(tr, w)
print('hists %(hists)d events %(events)d ok %(ok)d free %(free)d' % r, 'rejects', len(r['rejects']), 'record %.1f validate %.1f' % (t2 - t1, time.time() - t2), 'MB %.1f' % (os.path.getsize(tr)/1e6))
H = {}; c = collections.Counter(); ex = {}; ts = collections.defaultdict(set)
for li, ei in r['rejects']:
    h = H.get(li) or H.setdefault(li, json.loads(r['lines'][li])); ev = h['ev'][ei]
    d = R.describe(h, ev)
    t = R.tname(h['T'])
    key = (ev['o'], str(ev.get('k', '')), t.split('<')[0], 'PANIC' in json.dumps(d))
    c[key] += 1; ts[key].add(t.split('<')[-1].rstrip('>'))
    ex.setdefault(key, []).append((t, d.get('args'), d.get('outcome'), d.get('observed')))
for k, n in sorted(c.items(), key=str)[:40]:
    print(n, k, ' '.join(sorted(ts[k]))[:100])
    st = max(1, len(ex[k]) // 3)
    for e in ex[k][::st][:3]: print('     ', json.dumps(e)[:260])
