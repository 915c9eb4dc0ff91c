#!/usr/bin/env python3
"""Check driver.

  run.py setup           build everything the checks need
  run.py check <ID> [thorough]   decide one property on /repo's working tree (VERIF_SEED, VERIF_TIER)
  run.py replay <FILE>   show a recorded violation and validate it again

Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).  Exit 2: the check itself failed.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
TARGET = os.path.join(B, 'target')
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = 'thorough' if sys.argv[3:4] == ['thorough'] and sys.argv[1:2] == ['check'] else os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
sys.path.insert(0, V)
from props import PROPS          # per-property configuration


class ToolError(Exception):
    pass


class Uncallable(Exception):
    pass


def sh(cmd, **kw):
    kw.setdefault('stdout', subprocess.PIPE)
    kw.setdefault('stderr', subprocess.STDOUT)
    return subprocess.run(cmd, text=True, errors='replace', **kw)


# ---------------------------------------------------------------- building
def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode() + b'\0')
            h.update(open(f, 'rb').read() + b'\0')
    return h.hexdigest()


def stamp_ok(name, h):
    p = os.path.join(B, name + '.stamp')
    return os.path.exists(p) and open(p).read() == h


def stamp(name, h):
    with open(os.path.join(B, name + '.stamp'), 'w') as f:
        f.write(h)


def build_java():
    src = os.path.join(V, 'tlcx')
    h = tree_hash([src])
    if stamp_ok('tlcx', h) and os.path.isdir(B + '/tlcx') and os.path.isdir(B + '/fast'):
        return
    for out, root, cp in (('tlcx', 'src', ''), ('fast', 'fast', ':' + B + '/tlcx')):
        d = os.path.join(B, out)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        files = [os.path.join(a, f) for a, _, fs in os.walk(os.path.join(src, root)) for f in fs if f.endswith('.java')]
        r = sh(['javac', '-cp', TLAJARS + cp, '-d', d] + files)
        if r.returncode:
            raise ToolError('javac failed\n' + r.stdout)
    stamp('tlcx', h)


def build_rust(bins, features=()):
    """Build recorder binaries against the crate's current sources (decided by content, not by time stamps)."""
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true', RUSTFLAGS='')
    env.pop('RUSTC_WRAPPER', None)
    hd = os.path.join(V, 'harness')
    h = tree_hash([REPO + '/src', REPO + '/Cargo.toml', hd + '/src', hd + '/Cargo.toml'])
    if not stamp_ok('rust', h):
        for p in ('mixed-num', 'mnharness'):
            sh(['cargo', 'clean', '--offline', '-p', p], cwd=hd, env=env)
        stamp('rust', h)
    for feats in features or ((),):
        cmd = ['cargo', 'build', '--offline', '--quiet'] + [x for b in bins for x in ('--bin', b)]
        if feats:
            cmd += ['--features', ','.join(feats)]
        r = sh(cmd, cwd=hd, env=env, timeout=800)
        if r.returncode:
            errs = [x for x in r.stdout.split('\n\n') if x.startswith('error')]
            # A typed interface error in the recorder while the library itself compiles: a call that the property
            # quantifies over can no longer be written.
            own = [x for x in errs if re.match(r'error\[E(0277|0599|0369|0368|0308|0432|0433|0425|0576|0603|0616|0624)\]', x) and re.search(r'--> src/', x)]
            lib = sh(['cargo', 'build', '--offline', '--quiet', '-p', 'mixed-num'], cwd=hd, env=env, timeout=800)
            if own and lib.returncode == 0:
                raise Uncallable('\n\n'.join(own)[:4000])
            raise ToolError('cargo build failed\n' + '\n'.join(errs)[-4000:])
        tag = '-'.join(feats) if feats else ''
        for b in bins:
            d = os.path.join(B, 'bin' + ('-' + tag if tag else ''))
            os.makedirs(d, exist_ok=True)
            shutil.copy2(os.path.join(TARGET, 'debug', b), os.path.join(d, b))


def java_cmd(mx, fast=True):
    cp = (B + '/fast:' if fast and not os.environ.get('VERIF_NOFAST') else '') + B + '/tlcx:' + TLAJARS
    return ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Xmx%dm' % mx, '-Xss64m', '-cp', cp, 'tlc2.TLC']


# ---------------------------------------------------------------- recording
def record(binary, out, env=None, timeout=300):
    """Run a recorder; returns 'ok' | 'hang' | 'abort'.  The trace file is complete in every case."""
    e = dict(os.environ, VERIF_SEED=str(SEED), VERIF_TIER=TIER)
    e.update(env or {})

    def go(extra):
        try:
            return subprocess.run([binary, out], env=dict(e, **extra), stdout=subprocess.DEVNULL,
                                  stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('recorder %s exceeded %d s' % (binary, timeout))
    r = go({})
    if r.returncode == 0:
        return 'ok'
    if r.returncode == 3:
        return 'hang'
    if r.returncode > 0:
        raise ToolError('recorder failed (%d): %s' % (r.returncode, r.stderr.decode(errors='replace')[-2000:]))
    # died from a signal (stack overflow, abort) inside library code: run again in the mode that logs each call
    # before it is made, and log the fatal call as a panic
    go({'REC_FLUSH': '1'})
    lines, last = [], None
    with open(out, errors='replace') as f:
        for l in f:
            if l.startswith('#'):
                last = l[1:].rstrip('\n')
            elif l.endswith('\n'):
                lines.append(l)
                last = None
    if last is None:
        raise ToolError('recorder died without a call in progress: %s' % r.stderr.decode(errors='replace')[-500:])
    lines.append(last + '"r":[[5],[5]],"p":[],"abort":1}]}\n')
    with open(out, 'w') as f:
        f.writelines(lines)
    return 'abort'


# ---------------------------------------------------------------- TLC
RE_HIST = re.compile(r'<<"HIST", (\d+), (\d+), (\d+), (\d+)>>')
RE_REJ = re.compile(r'<<"REJECT", (\d+), (\d+)>>')
RE_GEN = re.compile(r'^(\d+) states generated, (\d+) distinct states found', re.M)


def validate(trace, work, jobs=8, timeout=820):
    """Validate a trace file with TLC.  Returns dict(hists, events, ok, free, rejects=[(line, event)], states)."""
    lines = open(trace).read().splitlines()
    if not lines:
        raise ToolError('empty trace')
    n = max(1, min(jobs, (len(lines) + 3) // 4))
    order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
    buckets = [[0, []] for _ in range(n)]
    for i in order:                       # balance by size
        b = min(buckets, key=lambda x: x[0])
        b[0] += len(lines[i]) + 200
        b[1].append(i)
    res = dict(hists=0, events=0, ok=0, free=0, rejects=[], states=0)

    def go(k):
        idx = buckets[k][1]
        p = os.path.join(work, 'chunk%d.ndjson' % k)
        with open(p, 'w') as f:
            f.writelines(lines[i] + '\n' for i in idx)
        md = os.path.join(work, 'meta%d' % k)
        try:
            r = sh(java_cmd(3000) + ['-workers', '1', '-metadir', md, '-config', 'Trace.cfg', 'Trace.tla'],
                   cwd=os.path.join(V, 'spec'), env=dict(os.environ, TRACE=p), timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC exceeded %d s on %s' % (timeout, p))
        shutil.rmtree(md, ignore_errors=True)
        m = RE_GEN.search(r.stdout)
        if r.returncode or not m or 'Model checking completed. No error' not in r.stdout:
            keep = [l for l in r.stdout.splitlines() if not re.match(r'<<"HIST|Loading |Parsing|Semantic|Linting|Progress|Computed', l)]
            raise ToolError('TLC failed on %s\n%s' % (p, '\n'.join(keep)[-3000:]))
        os.unlink(p)
        return idx, r.stdout, int(m.group(1))

    with ThreadPoolExecutor(n) as ex:
        for idx, out, gen in ex.map(go, range(n)):
            res['states'] += gen
            seen = set()
            for m in RE_HIST.finditer(out):
                hh, ll, a, b = map(int, m.groups())
                seen.add(hh)
                res['hists'] += 1
                res['events'] += ll
                res['ok'] += a
                res['free'] += b
            if len(seen) != len(idx):
                raise ToolError('TLC consumed %d of %d histories' % (len(seen), len(idx)))
            for m in RE_REJ.finditer(out):
                hh, ll = int(m.group(1)), int(m.group(2))
                res['rejects'].append((idx[hh - 1], ll - 1))
    total = sum(len(json.loads(l)['ev']) for l in lines) if len(lines) < 200 else None
    if total is not None and total != res['events']:
        raise ToolError('TLC consumed %d of %d events' % (res['events'], total))
    res['lines'] = lines
    return res


def tlc_model(m, cfg, work, tag, fast=True, timeout=800):
    md = os.path.join(work, 'meta-%s-%s' % (os.path.basename(cfg), tag))
    try:
        r = sh(java_cmd(m.get('mx', 3000), fast) + ['-noGenerateSpecTE', '-workers', str(m.get('workers', 3)), '-metadir', md, '-config', cfg, m['module'] + '.tla'],
               cwd=os.path.join(V, 'spec'), env=dict(os.environ, **m.get('env', {})), timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('model %s exceeded its time' % cfg)
    shutil.rmtree(md, ignore_errors=True)
    return r


def run_model(m, work):
    """Exhaustive model checking of a spec-level model.  `both`: evaluate it with and without the accelerated classes and
    compare the printed values.  `controls`: altered constants under which some invariant must fail (thorough tier)."""
    name = m['cfg'] + ('-thorough' if THOROUGH and os.path.exists(os.path.join(V, 'spec', m['cfg'] + '-thorough.cfg')) else '') + '.cfg'
    t0 = time.time()
    r = tlc_model(m, name, work, 'a', timeout=m.get('timeout', 800))
    g = RE_GEN.search(r.stdout)
    if r.returncode or not g or 'No error has been found' not in r.stdout:
        raise ToolError('model %s failed\n%s' % (name, r.stdout[-3000:]))
    res = dict(model=m['module'], config=name, states_generated=int(g.group(1)), distinct=int(g.group(2)),
               decides=m.get('what', ''))
    if res['distinct'] < m.get('min', 50):
        raise ToolError('model %s explored only %d states' % (name, res['distinct']))
    if m.get('both'):
        r2 = tlc_model(m, name, work, 'b', fast=False, timeout=m.get('timeout', 800))
        v1, v2 = (sorted(l for l in x.stdout.splitlines() if 'VAL' in l) for x in (r, r2))
        if not v1 or v1 != v2:
            raise ToolError('model %s: the accelerated classes disagree with the definitions (%d, %d values)' % (name, len(v1), len(v2)))
        res['values_compared_with_definitions'] = len(v1)
    if THOROUGH:
        res['controls_violated'] = []
        for k, c in enumerate(m.get('controls', [])):
            txt = open(os.path.join(V, 'spec', c.get('cfg', m['cfg']) + '.cfg')).read()
            for key, val in c['set'].items():
                txt, n = re.subn(r'\b%s = \S+' % key, '%s = %s' % (key, val), txt)
                if n != 1:
                    raise ToolError('control of %s: no constant %s' % (name, key))
            p = os.path.join(work, '%s-control%d.cfg' % (m['cfg'], k))
            open(p, 'w').write(txt)
            rc = tlc_model(m, p, work, 'c%d' % k)
            if not re.search(r'(Invariant|property|Temporal properties).* (is|were) violated', rc.stdout):
                raise ToolError('control %s of %s was not violated\n%s' % (c['set'], name, rc.stdout[-1500:]))
            res['controls_violated'].append(c['what'])
    res['wall_s'] = round(time.time() - t0, 1)
    return res


# ---------------------------------------------------------------- findings
def load_findings(pid):
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == pid and f['status'] == 'known']


def decode(v):
    if not isinstance(v, list):
        return v
    if v and v[0] == 0 and len(v) >= 3 and all(isinstance(x, int) for x in v):
        if v[2] == 0:
            return 0.0
        m = sum(x << (30 * i) for i, x in enumerate(v[3:]))
        try:
            return v[2] * m * 2.0 ** v[1]
        except OverflowError:
            return '%d*2^%d' % (v[2] * m, v[1])
    if len(v) == 1 and v[0] in (1, 2, 3, 4, 5, 6):
        return {1: 'NaN', 2: 'inf', 3: '-inf', 4: '-0', 5: 'PANIC', 6: 'HANG'}[v[0]]
    return [decode(x) if isinstance(x, list) else x for x in v]


def tname(t):
    if not isinstance(t, dict):
        return str(t)
    k, w, f, s = t['k'], t['w'], t['f'], t['s']
    return ('i' if s else 'u') + str(w) if k == 0 else 'Fixed%s%d<U%d>' % ('I' if s else 'U', w, f) if k == 1 else 'f%d' % w


def describe(h, ev):
    head = {k: tname(v) if isinstance(v, dict) else v for k, v in h.items() if k != 'ev'}
    return dict(header=head, call=ev['o'] + (':' + str(ev['i']) if 'i' in ev else ''), form=ev.get('x'), args=[decode(a) for a in ev['a']],
                outcome=[decode(a) for a in ev['r']], observed=[decode(a) for a in ev.get('p', [])])


def matches(f, h, ev):
    vals = ev['r']
    env = dict(op=ev['o'], T=h['T'], h=h, ev=ev, args=[decode(a) for a in ev['a']],
               res=[decode(a) for a in vals], panic=bool(vals) and all(v == [5] for v in vals),
               some_panic=any(v == [5] for v in vals), hang=any(v == [6] for v in vals), all=all, any=any, abs=abs, len=len, max=max)
    try:
        return bool(eval(f['match'], {'__builtins__': {}}, env))
    except Exception as e:          # a finding that cannot be evaluated matches nothing
        return False


# ---------------------------------------------------------------- check
def check(pid):
    t0 = time.time()
    P = PROPS[pid]
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    lock = open(os.path.join(B, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        build_java()
        for feats in sorted({f for _, f in P['recorders']}):
            build_rust([b for b, f in P['recorders'] if f == feats], ((feats,) if feats else (),))
    except Uncallable as e:
        os.makedirs(os.path.join(B, 'replay'), exist_ok=True)
        p = os.path.join(B, 'replay', '%s-uncallable.json' % pid)
        json.dump(dict(property=pid, uncallable=str(e)), open(p, 'w'), indent=1)
        with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as fo:
            json.dump(dict(property=pid, tier=TIER, seed=SEED, level='model_checking',
                           coverage=dict(states=0, transitions=0, traces_validated_against_impl=0,
                                         samples=[str(e)[:400]]),
                           assumptions=P.get('assumptions', []) + COMMON_ASSUMPTIONS,
                           wall_s=round(time.time() - t0, 1), violations=1), fo, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        print('   a call of this property no longer compiles although the library does:\n' + str(e)[:1500])
        return 1
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
    work = os.path.join(B, 'run', pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    models, tot = [], dict(hists=0, events=0, ok=0, free=0, states=0)
    bad, samples, status, lensum = [], [], [], 0
    pool = ThreadPoolExecutor(4)
    gen = None
    env = {}
    for g in P.get('generators', []):            # behaviours generated by TLC from the specification
        p = os.path.join(work, g['name'] + '.gen')
        generate(g, p, work)
        env[g['env']] = p
    futs = [pool.submit(run_model, m, work) for m in P.get('models', [])]
    for b, feats in P['recorders']:
        tr = os.path.join(work, b + ('-' + feats if feats else '') + '.ndjson')
        st = record(os.path.join(B, 'bin' + ('-' + feats if feats else ''), b), tr, env=env)
        status.append('%s%s: %s' % (b, '+' + feats if feats else '', st))
        r = validate(tr, work)
        for k in tot:
            tot[k] += r[k]
        cache = {}
        for li, ei in r['rejects']:
            if li not in cache:
                cache[li] = json.loads(r['lines'][li])
            h = cache[li]
            bad.append((b, feats, li, ei, h))
        step = max(1, len(r['lines']) // 4)
        for i in range(0, len(r['lines']), step):
            h = json.loads(r['lines'][i])
            told = [e for e in h['ev'] if e.get('a') and e.get('r')] or h['ev']
            samples.append(describe(h, told[len(h['ev']) * 7 % len(told)]))
        ops = {}
        os.unlink(tr) if not r['rejects'] else None
    models = [f.result() for f in futs]
    findings = load_findings(pid)
    hits = {f['id']: 0 for f in findings}
    viol = []
    for b, feats, li, ei, h in bad:
        ev = h['ev'][ei]
        for f in findings:
            if matches(f, h, ev):
                hits[f['id']] += 1
                break
        else:
            viol.append((b, feats, li, ei, h))
    rd = os.path.join(B, 'replay')
    os.makedirs(rd, exist_ok=True)
    for f in findings:
        print('KNOWN-FINDING: property=%s %s (%d calls of this run)' % (pid, f['what'], hits[f['id']]))
    for n, (b, feats, li, ei, h) in enumerate(viol[:10]):
        p = os.path.join(rd, '%s-%d.json' % (pid, n + 1))
        ev = h['ev'][ei]
        with open(p, 'w') as fo:
            json.dump(dict(property=pid, seed=SEED, tier=TIER, recorder=b, features=feats, history=li, event=ei,
                           readable=describe(h, ev), trace=dict(h, ev=h['ev'][:ei + 1])), fo, indent=1, ensure_ascii=False)
        d = describe(h, ev)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        print('   ' + json.dumps(d, ensure_ascii=False)[:600])
    if len(viol) > 10:
        print('   ... %d rejected calls in all' % len(viol))
    ev = dict(property=pid, tier=TIER, seed=SEED, level='model_checking',
              coverage=dict(states=tot['states'] + sum(m['states_generated'] for m in models),
                            transitions=tot['events'] + sum(m['states_generated'] for m in models),
                            traces_validated_against_impl=tot['hists'],
                            calls_validated=tot['events'], calls_constrained=tot['ok'], calls_unconstrained=tot['free'],
                            calls_rejected=len(bad), rejected_known=len(bad) - len(viol),
                            models=models, recorders=status, samples=samples[:12]),
              assumptions=P.get('assumptions', []) + COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 1), violations=len(viol))
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as fo:
        json.dump(ev, fo, indent=1, ensure_ascii=False)
    if tot['ok'] < P.get('min_ok', 1000) and not viol:
        raise ToolError('vacuous run: only %d calls were constrained by the specification' % tot['ok'])
    print('%s: %d histories, %d calls (%d constrained, %d unconstrained), %d rejected (%d known), %d model states, %.1f s' % (
        pid, tot['hists'], tot['events'], tot['ok'], tot['free'], len(bad), len(bad) - len(viol),
        sum(m['distinct'] for m in models), time.time() - t0))
    return 1 if viol else 0


COMMON_ASSUMPTIONS = [
    'TLC with the unbounded-integer module classes in tlcx/ evaluates TLA+ integer arithmetic correctly',
    'the recorder in harness/ logs the arguments and outcomes of the calls it makes faithfully',
    'checked build: debug assertions and overflow checks on, x86-64',
]


def generate(g, out, work):
    """Let TLC enumerate behaviours of a generator module; the lines it prints with PrintT("GEN ...") become the file."""
    cfg = g['cfg'] + ('-thorough' if THOROUGH and os.path.exists(os.path.join(V, 'spec', g['cfg'] + '-thorough.cfg')) else '') + '.cfg'
    cmd = java_cmd(3000) + ['-workers', '1', '-metadir', os.path.join(work, 'meta-gen'), '-seed', str(SEED), '-config', cfg]
    try:
        r = sh(cmd + [g['module'] + '.tla'], cwd=os.path.join(V, 'spec'), env=dict(os.environ, VERIF_SEED=str(SEED)), timeout=400)
    except subprocess.TimeoutExpired:
        raise ToolError('generator %s exceeded its time' % cfg)
    lines = [l[5:-1].replace('\\"', '"') for l in r.stdout.splitlines() if l.startswith('"GEN ')]
    if not lines:
        raise ToolError('generator %s produced nothing\n%s' % (cfg, r.stdout[-2000:]))
    with open(out, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return len(lines)


def setup():
    os.makedirs(B, exist_ok=True)
    build_java()
    bins, feats = [], set()
    for P in PROPS.values():
        for b, f in P['recorders']:
            if b not in bins:
                bins.append(b)
    build_rust(bins)
    fb = sorted({b for P in PROPS.values() for b, f in P['recorders'] if f == 'std'})
    if fb:
        build_rust(fb, (('std',),))
    print('setup done')
    return 0


def replay(path):
    d = json.load(open(path))
    if 'uncallable' in d:
        print(d['uncallable'])
        return 1
    print(json.dumps(d['readable'], indent=1, ensure_ascii=False))
    work = os.path.join(B, 'run', 'replay')
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    p = os.path.join(work, 'one.ndjson')
    open(p, 'w').write(json.dumps(d['trace']) + '\n')
    build_java()
    r = validate(p, work, jobs=1)
    print('rejected events of the stored history:', r['rejects'])
    print('to record it again from the current tree: VERIF_SEED=%d VERIF_TIER=%s python3 run.py check %s' % (d['seed'], d['tier'], d['property']))
    return 1 if r['rejects'] else 0


def main():
    try:
        a = sys.argv[1:]
        if a[:1] == ['setup']:
            return setup()
        if a[:1] == ['check']:
            return check(a[1])
        if a[:1] == ['replay']:
            return replay(a[1])
        print(__doc__)
        return 2
    except ToolError as e:
        print('CHECK-ERROR: %s' % e)
        return 2
    except subprocess.TimeoutExpired as e:
        print('CHECK-ERROR: timeout %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
