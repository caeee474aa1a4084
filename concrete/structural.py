"""Run the structural oracle on the real expansion."""
import json, os, shutil, subprocess, sys, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from model import *
import gen, oracle

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def build_driver(target, features=('default',)):
    repo = os.environ.get('VERIF_REPO', '/repo')
    src = os.path.join(VERIF, 'driver')
    if repo != '/repo':          # development: a scratch copy of the repository
        shutil.copytree(src, target + '-src', dirs_exist_ok=True)
        src = target + '-src'
        t = open(src + '/Cargo.toml').read().replace('/repo/', repo + '/')
        open(src + '/Cargo.toml', 'w').write(t)
    cmd = '. /opt/vp/common.sh >/dev/null 2>&1; cd %s && cargo build --offline -q --no-default-features %s' % (src, ('--features ' + ','.join(features)) if features else '')
    r = subprocess.run(['bash', '-c', cmd + ' --target-dir ' + target], capture_output=True, text=True)
    if r.returncode: raise RuntimeError('driver does not build: ' + r.stderr[-2000:])
    return os.path.join(target, 'debug', 'driver')

def expand(driver, srcs):
    inp = '\n'.join(json.dumps({'id': i, 'src': s}) for i, s in enumerate(srcs)) + '\n'
    r = subprocess.run([driver], input=inp, capture_output=True, text=True)
    out = [json.loads(l) for l in r.stdout.splitlines()]
    assert len(out) == len(srcs), r.stderr[-1000:]
    return out

def run(driver, structs, seed=0, feats=('lib_has_std',)):
    srcs = [render(s, seed + i) for i, s in enumerate(structs)]
    res = expand(driver, srcs)
    bad = []
    for s, src, r in zip(structs, srcs, res):
        for props, msg in oracle.check(s, r, feats):
            bad.append((props, msg, src, s))
    return bad, len(srcs)

if __name__ == '__main__':
    d = build_driver('/tmp/w/dt')
    rnd = random.Random(1)
    ss = gen.systematic() + gen.conflicts() + [gen.rand_struct(rnd) for _ in range(int(sys.argv[1]) if len(sys.argv) > 1 else 1500)]
    import time; t = time.time()
    bad, n = run(d, ss)
    print(n, 'inputs', len(bad), 'mismatches', time.time() - t)
    from collections import Counter
    print(Counter(m[:60] for _, m, _, _ in bad).most_common(20))
    for p, m, src, s in bad[:6]: print(p, m); print(src)
