"""helpers to plant and evaluate seeded bugs (development only; scratch copies under /tmp)"""
import json, os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = os.environ.get('SEED_SR', '/tmp/sr')
ENV = dict(os.environ, HOME='/root', PATH='/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='1.88.0', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', RUST_BACKTRACE='0')

def sh(cmd, cwd=None, env=None, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)

def scratch():
    if not os.path.isdir(SR):
        sh('git clone -q /repo %s && cp -a /repo/target %s/target' % (SR, SR))
    r = sh('git checkout -q -- . && git clean -qfd -e target && git pull -q --ff-only origin HEAD; git fetch -q origin; git reset -q --hard $(git -C /repo rev-parse HEAD); git status --short | head -5', cwd=SR)
    h = sh('git -C /repo rev-parse HEAD').stdout.strip()
    assert sh('git rev-parse HEAD', cwd=SR).stdout.strip() == h, r.stdout

def tests():
    r = sh('cargo test --workspace --exclude integration-tests --no-fail-fast --offline --locked -- --test-threads 8', cwd=SR, env=ENV)
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    ok = set()
    for l in r.stdout.splitlines():
        if l.startswith('test ') and l.rstrip().endswith('... ok'):
            ok.add(l.split()[1])
    bad = [x for x in b if x.split('::', 1)[-1] not in ok]
    return bad, r.stdout[-1500:] if 'could not compile' in r.stdout else ''

def demo(d, repo, tgt):
    e = dict(os.environ, SFSDEMO_TARGET=tgt)
    try:
        r = sh('bash %s/demo.sh' % d, cwd=repo, env=e, t=300)
        return r.returncode, r.stdout[-800:]
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def checks(ids=None):
    e = dict(os.environ, STABLEFS_REPO=SR, STABLEFS_BUILD=os.environ.get('SEED_SB', '/tmp/sb'))
    sys.path.insert(0, V + '/sa')
    import registry
    ids = ids or list(registry.RULES)
    r = sh('python3 sa/build.py', cwd=V, env=e)
    if r.returncode:
        return {'build': r.stdout[-500:]}
    res = {}
    ps = []
    def fin(i, p):
        out = p.communicate()[0]
        res[i] = (p.returncode, [l.strip() for l in out.splitlines() if l.startswith('  ') and not l.startswith('      ')][:6] if p.returncode == 1 else out[-300:] if p.returncode else '')
    for i in ids:
        ps.append((i, subprocess.Popen(['python3', 'check.py', i], cwd=V, env=dict(e, SA_NOEVIDENCE='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        if len(ps) >= 8:
            fin(*ps.pop(0))
    for x in ps:
        fin(*x)
    return res

def mk(sid, prop, edits, demo_rs, needs, breaks, run=True):
    """edits: [(file under stable-fs/src, old, new)]"""
    d = '%s/seeded/%s' % (V, sid)
    scratch()
    for f, a, b in edits:
        p = '%s/stable-fs/src/%s' % (SR, f)
        s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    diff = sh('git diff', cwd=SR).stdout
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.rs', 'w').write(demo_rs)
    shutil.copy(V + '/tools/demo.sh', d + '/demo.sh')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    if run:
        return evaluate(sid)

def evaluate(sid, ids=None, full=True):
    d = '%s/seeded/%s' % (V, sid)
    m = json.load(open(d + '/meta.json'))
    scratch()
    out = {}
    if full:
        out['demo_base'] = demo(d, '/repo', '/tmp/dtb')
    r = sh('git apply %s/patch.diff' % d, cwd=SR)
    if r.returncode:
        return {'apply': r.stdout}
    if full:
        out['tests_broken'] = tests()
        out['demo_patched'] = demo(d, SR, '/tmp/dtp')
    out['checks'] = {k: v for k, v in checks(ids).items() if v[0] != 0}
    sh('git checkout -q -- .', cwd=SR)
    ok = (not full) or (out['demo_base'][0] == 0 and out['demo_patched'][0] != 0 and not out['tests_broken'][0])
    c = out['checks'].get(m['property'], (0,))[0] == 1
    print('%s [%s] %s %s; others: %s' % (sid, m['property'], 'VALID' if ok else 'INVALID', 'CAUGHT' if c else 'MISSED', [k for k in out['checks'] if k != m['property']]))
    if not ok:
        print('   base', out['demo_base'], 'patched', out['demo_patched'], 'tests', len(out['tests_broken'][0]), out['tests_broken'][0][:4], out['tests_broken'][1][-500:])
    for k, v in out['checks'].items():
        print('    ', k, v[0], str(v[1])[:260])
    sys.stdout.flush()
    return out
