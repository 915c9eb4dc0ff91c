#!/usr/bin/env python3
"""Small syntactic changes of the library, to look for behaviour no check constrains (development tool; works on scratch copies).
   mutate.py list  DIR                 write all mutants to DIR/mutants.json
   mutate.py test  DIR K N             build and test mutants K, K+N, ... in DIR/repoK; survivors to DIR/survK.json
   mutate.py check DIR [seed] [max]    run the related quick checks of a copy of /verif against each survivor; DIR/result.txt"""
import json, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['fixed_impl.rs', 'float_impl.rs', 'int_impl.rs', 'lib.rs', 'trigonometry.rs', 'complex/cartesian_impl.rs', 'complex/ops.rs', 'complex/polar_impl.rs',
         'float_impl/f32_impl.rs', 'float_impl/f64_impl.rs', 'trigonometry/atan.rs', 'trigonometry/sqrt.rs', 'complex/cartesian_impl/num_complex_impl.rs',
         'traits/math_traits.rs', 'traits/complex_traits.rs', 'traits.rs']
REL = {'fixed_impl.rs': 'C17 C19 C12 C10 C13 C14 C20 C09 C05 C21 C22', 'float_impl.rs': 'C17 C19 C12 C10 C13 C14 C20 C09 C22', 'int_impl.rs': 'C17 C19 C14 C09 C22',
       'lib.rs': 'C17 C01', 'trigonometry.rs': 'C08 C11 C14 C19', 'complex/cartesian_impl.rs': 'C01 C02 C03 C04 C05 C06 C16 C18 C21 C23 C07 C24',
       'complex/ops.rs': 'C01 C03 C04 C05 C06 C07 C15', 'complex/polar_impl.rs': 'C04 C06 C07 C18 C21 C23 C05', 'float_impl/f32_impl.rs': 'C12 C13 C10 C20 C09 C14',
       'float_impl/f64_impl.rs': 'C12 C13 C10 C20 C09 C14', 'trigonometry/atan.rs': 'C10 C05', 'trigonometry/sqrt.rs': 'C09',
       'complex/cartesian_impl/num_complex_impl.rs': 'C21 C01 C02 C03 C18', 'traits/math_traits.rs': 'C13 C14', 'traits/complex_traits.rs': 'C18 C05', 'traits.rs': 'C17'}
SUBS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r'(?<=[\w)])\+(?=[\w(])', '-'), (r'(?<=[\w)])-(?=[\w(])', '+'), (r'(?<=[\w)])\*(?=[\w(])', '/'),
        (r'(?<=[\w)])/(?=[\w(])', '*'), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
        (r'\.re\b', '.im'), (r'\.im\b', '.re'), (r'\.mag\b', '.ang'), (r'\.ang\b', '.mag'), (r'\+=', '-='), (r'-=', '+='), (r'\*=', '/='), (r'/=', '*='),
        (r'(?<![\w.])(\d+)(?![\w.<])', lambda m: str(int(m.group(1)) + 1)), (r'(?<![\w.])(\d+\.\d+)', lambda m: str(float(m.group(1)) * 1.02 + 0.0)), (r'\bself\b', 'other'),
        (r'\bother\b', 'self'), (r'\ba\b', 'b'), (r'\bb\b', 'a'), (r'(?<=[(\s=])-(?=[a-z(])', ''), (r'mixed_sin\b', 'mixed_cos'), (r'mixed_cos\b', 'mixed_sin'), (r'\bsin\(', 'cos('), (r'\bcos\(', 'sin('),
        (r'\.floor\(\)', '.ceil()'), (r'\.ceil\(\)', '.floor()'), (r'\.round\(\)', '.floor()'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'FRAC_PI_2', 'PI'), (r'max_value', 'min_value'), (r'min_value', 'max_value'),
        (r'is_negative', 'is_positive'), (r'is_sign_negative', 'is_sign_positive'), (r'saturating_from_num', 'from_num'), (r'wrapping_', 'saturating_'), (r'^(\s*)(\w[\w.]* [-+*/]?= .*;)\s*$', r'\1'), (r'f64', 'f32')]
def code_lines(s):
    block = False
    for i, l in enumerate(s.split('\n')):
        t = l.strip()
        if t.startswith('/*'): block = True
        if '*/' in t: block = False; continue
        if block: continue
        if t.startswith('#[cfg(test)]'): return
        if not t or t.startswith('//') or t.startswith('#') or t.startswith('use ') or t.startswith('pub use') or t.startswith('where') or re.match(r'(pub )?(unsafe )?(impl|trait|mod|macro_rules)\b', t) or 'fn ' in t: continue
        yield i, l
def mutants():
    r = []
    for f in FILES:
        s = open('/repo/src/' + f).read()
        L = s.split('\n')
        for i, l in code_lines(s):
            c = l.split('//')[0]
            for pat, rep in SUBS:
                for m in re.finditer(pat, c):
                    n = m.expand(rep) if isinstance(rep, str) else rep(m)
                    x = c[:m.start()] + n + c[m.end():]
                    if x != c: r.append((f, i, l, x))
    return r
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def put(repo, m):
    p = repo + '/src/' + m[0]
    L = open(p).read().split('\n')
    assert L[m[1]] == m[2]
    L[m[1]] = m[3]
    open(p, 'w').write('\n'.join(L))
def copy(D, name):
    w = D + '/' + name
    if not os.path.isdir(w): sh('cp -a /repo %s && git -C %s checkout -q -- .' % (w, w))
    sh('git checkout -q -- .', cwd=w)
    return w
if __name__ == '__main__':
    cmd, D = sys.argv[1:3]
    if cmd == 'list':
        ms = mutants()
        random.Random(5).shuffle(ms)
        json.dump(ms, open(D + '/mutants.json', 'w'))
        print(len(ms))
    elif cmd == 'test':
        K, N = int(sys.argv[3]), int(sys.argv[4])
        w = copy(D, 'repo%d' % K)
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        surv, n, nc = [], 0, 0
        for m in json.load(open(D + '/mutants.json'))[K::N]:
            sh('git checkout -q -- .', cwd=w)
            put(w, m)
            n += 1
            if sh('cargo check --offline', cwd=w).returncode: nc += 1; continue
            sh('timeout 60 cargo test --workspace --no-fail-fast --offline -- --test-threads 4 > %s/log%d 2>&1; python3 /opt/vp/results.py %s/out%d.json cargo:%s/log%d' % (D, K, D, K, D, K), cwd=w)
            try: ok = not base - set(json.load(open('%s/out%d.json' % (D, K)))['passed'])
            except Exception: ok = False
            if ok: surv.append(m)
            json.dump(surv, open('%s/surv%d.json' % (D, K), 'w'))
            print(n, nc, len(surv), flush=True)
    else:
        seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
        cap = int(sys.argv[4]) if len(sys.argv) > 4 else 10**9
        w = copy(D, 'repo')
        v = D + '/verif'
        sh('rm -rf %s && mkdir %s && cd %s && git archive HEAD | tar -x -C %s && cp -a %s/build %s/build && sed -i "s|/repo|%s|" %s/harness/Cargo.toml' % (v, v, V, v, V, v, w, v))
        with open(v + '/props.py', 'a') as f: f.write('\nfor p in PROPS.values(): p.pop("models", None)\n')      # models do not depend on the mutant
        ms = sum((json.load(open(D + '/' + f)) for f in sorted(os.listdir(D)) if f.startswith('surv')), [])
        done = set(l.split('\t')[0] for l in open(D + '/result.txt')) if os.path.exists(D + '/result.txt') else set()
        random.Random(seed).shuffle(ms)
        for m in ms[:cap]:
            key = '%s:%d %s => %s' % (m[0], m[1] + 1, m[2].strip(), m[3].strip())
            if key in done: continue
            sh('git checkout -q -- .', cwd=w)
            put(w, m)
            hit = None
            for c in REL[m[0]].split():
                o = subprocess.run([sys.executable, v + '/run.py', 'check', c], cwd=v, env=dict(os.environ, VERIF_REPO=w), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if o.returncode == 1: hit = c; break
                if o.returncode: hit = 'ERR ' + c; break
            with open(D + '/result.txt', 'a') as f: f.write('%s\t%s\n' % (key, hit))
            print(hit, '|', key, flush=True)
