#!/usr/bin/env python3
# perturb.py BIN [KIND ...]: negative control.  Records a trace, corrupts one outcome of every event and reports
# which share of the corrupted events the specification rejects, by operation and family of type.
import sys, os, json, collections, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run as R
b = sys.argv[1]
kinds = sys.argv[2:] or ['sign', 'rel4', 'rel10', 'rel20', 'step', 'zero', 'panic']
R.build_java(); R.build_rust([b])
w = os.path.join(R.B, 'run', 'perturb-' + b); os.makedirs(w, exist_ok=True)
tr = w + '/t.ndjson'
R.record(R.B + '/bin/' + b, tr)
lines = open(tr).read().splitlines()

def num(v):
    z = 0
    for l in reversed(v[3:]): z = (z << 30) + l
    return v[2] * z
def enc(z, e):
    if z == 0: return [0, 0, 0]
    s = -1 if z < 0 else 1
    z = abs(z); o = []
    while z: o.append(z & (2**30 - 1)); z >>= 30
    return [0, e, s] + o
def pert(T, v, kind, rnd):
    if not isinstance(v, list) or not v or v[0] not in (0, 4): return None
    if kind == 'panic': return [5]
    z, e = (num(v), v[1]) if v[0] == 0 else (0, 0)
    if kind == 'zero': return [0, 0, 0] if z else None
    if kind == 'sign': return enc(-z, e) if z else None
    if kind == 'step':                  # one unit in the last place
        if T['k'] == 2:
            if z == 0: return None
            p = 24 if T['w'] == 32 else 53
            sh = p - abs(z).bit_length()
            return enc((z << max(sh, 0)) + rnd.choice([-1, 1]), e - max(sh, 0))
        return enc((z << (e + T['f'])) + rnd.choice([-1, 1]) if e + T['f'] >= 0 else z + 1, -T['f'])
    k = int(kind[3:])
    if z == 0: return None
    q = z * (1 << k) + rnd.choice([-1, 1]) * z
    e2 = e - k
    if T['k'] != 2:                     # stay on the grid of the type
        sh = -T['f'] - e2
        q = q >> sh if sh > 0 else q << -sh
        e2 = -T['f']
        return enc(q, e2) if q != (z << (e + T['f']) if e + T['f'] >= 0 else None) else None
    return enc(q, e2)
for kind in kinds:
    rnd = random.Random(1)
    out = []; tot = collections.Counter()
    for li, l in enumerate(lines):
        h = json.loads(l)
        evs = []
        for ev in h['ev']:
            if not ev['r'] or ev['o'] == 'set': evs.append(ev); continue
            i = rnd.randrange(len(ev['r'])) if kind != 'panic' else None
            if kind == 'panic':
                if any(isinstance(x, list) and x and x[0] == 5 for x in ev['r']): continue
                ev['r'] = [[5]] * len(ev['r'])
            else:
                T = ev.get('T', h['T'])
                n = pert(T, ev['r'][i], kind, rnd)
                if n is None: continue
                ev['r'][i] = n
            ev['x'] = 1
            evs.append(ev)
            tot[(ev['o'], str(ev.get('f', ev.get('k', ''))), h['T']['k'])] += 1
        if evs: out.append(json.dumps(dict(h, ev=evs)))
    p = w + '/p.ndjson'
    open(p, 'w').write('\n'.join(out) + '\n')
    r = R.validate(p, w)
    rej = collections.Counter(); cache = {}
    for li, ei in r['rejects']:
        h = cache.get(li) or cache.setdefault(li, json.loads(r['lines'][li])); ev = h['ev'][ei]
        if 'x' in ev: rej[(ev['o'], str(ev.get('f', ev.get('k', ''))), h['T']['k'])] += 1
    print(kind, ' '.join('%s%s/%s:%d%%(%d)' % (o, '.' + f if f else '', 'int fix flt'.split()[k], 100 * rej[(o, f, k)] / n, n) for (o, f, k), n in sorted(tot.items())))
