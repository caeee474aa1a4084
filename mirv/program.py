"""Build the MIR of a repository crate and load it."""
import os, subprocess, glob, re, sys
sys.path.insert(0, os.path.dirname(__file__))
import mirparse, srcinfo
from ex import Ctx

REPO = os.environ.get('VERIF_REPO', '/repo')

EXTERN = [('syn', '2.*'), ('proc-macro2', '1.*'), ('quote', '1.*'), ('darling_core', '0.*')]

def emit_mir(crate, out, features=(), target=None, extra=()):
    """rustc's MIR of the library crate, from the working tree"""
    target = target or os.path.join(os.path.dirname(out), 'target')
    cmd = '. /opt/vp/common.sh >/dev/null 2>&1; cd %s && cargo rustc --offline -q -p %s --lib --profile dev --target-dir %s %s -- --emit=mir=%s -C debug-assertions=off -A warnings %s' % (
        REPO, crate, target, ('--features ' + ','.join(features)) if features else '', out, ' '.join(extra))
    r = subprocess.run(['bash', '-c', cmd], capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise RuntimeError('MIR build failed: ' + r.stderr[-3000:])
    return out

def load_ctx(mir, crate_dir):
    src = srcinfo.Src()
    for f in sorted(glob.glob(os.path.join(REPO, crate_dir, 'src', '**', '*.rs'), recursive=True)):
        src.add_file(f, os.path.relpath(f, REPO))
    for c, v in EXTERN:
        for d in ('%s-%s' % (c, v),):
            ds = sorted(glob.glob(os.path.expanduser('~/.cargo/registry/src/*/' + d)))
            if not ds: continue
            for f in sorted(glob.glob(os.path.join(ds[-1], 'src', '**', '*.rs'), recursive=True)):
                if '/gen/' in f or '/tests/' in f: continue
                src.add_file(f)
    return Ctx(mirparse.load(mir), src)
