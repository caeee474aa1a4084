"""Contracts assumed of dependencies, discharged on the dependencies' own MIR.

lib.py says what a call of Option::map, quote's push_rarrow or darling's Accumulator::handle means, and every
proof about the repository's code rests on that.  Here each such contract is the postcondition of the
function's body: the body is executed symbolically from unknown arguments (functions passed in are opaque, and
the sequence of their calls is part of the postcondition) and compared, on every path, with what lib.py says
for the very callee text the repository's MIR has at such calls.  quote and darling_core are compiled from the
sources cargo uses for /repo; the Option and Result functions come from the installed rust-src.

usage: deps.py SCRATCH OUT.json"""
import glob, json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import z3
from values import *
import mirparse, srcinfo, program
from mirparse import Unsupported, base_ty, ty_args, norm_ty
from ex import Ctx, Ex, State, Fork, Budget, Diverge, add_lit, callee_info, lits_of
import lib as libm, parsers
from lib import Lib, TABLE, PUSH, DELIM, opt
from spec import Eq, AND, NOT, leaves, Panic
from verify import Z

REG = re.compile(r'/\S*?/registry/src/[^/]+/')
RS = re.compile(r'/\S*?/rust/library/')
STABLE = '/root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu'

# ------------------------------------------------------------ the dependencies' MIR
def emit_dep(crate, scratch):
    out = os.path.join(scratch, crate + '.mir')
    program.emit_mir(crate, out, target=os.path.join(scratch, 'target'))
    return out

def emit_core(scratch):
    """Option and Result from rust-src (the standard library of the build toolchain ships without source)"""
    src = STABLE + '/lib/rustlib/src/rust/library/core/src/lib.rs'
    parts = []
    for mod in ('option', 'result'):
        d = os.path.join(scratch, 'dump-' + mod)
        subprocess.run([STABLE + '/bin/rustc', '--crate-type', 'rlib', '--crate-name', 'core', '--edition', '2024', src, '-Zmir-opt-level=0', '--emit=metadata=' + os.path.join(scratch, 'core.rmeta'), '-Zdump-mir=%s::' % mod,
                        '-Zdump-mir-dir=' + d, '-Zdump-mir-exclude-pass-number', '-Zalways-encode-mir', '-Cdebug-assertions=off', '-Awarnings'], capture_output=True, text=True, timeout=300, env=dict(os.environ, RUSTC_BOOTSTRAP='1'), cwd=scratch)
        for f in sorted(glob.glob(os.path.join(glob.escape(d), '*.runtime-post-cleanup.after.mir'))):
            if os.path.basename(f).startswith('core.%s-' % mod): parts.append(open(f).read())
    out = os.path.join(scratch, 'core.mir')
    with open(out, 'w') as f: f.write('\n'.join(parts))
    if not parts: raise RuntimeError('no MIR of core')
    return out

def load(mirs):
    src = srcinfo.Src()
    text = ''.join(open(m).read() for m in mirs)
    have = set(re.findall(r'<impl at ([^:>]+):\d+:\d+: \d+:\d+>', text)) | set(re.findall(r'\{closure@([^:}]+):\d+', text))
    dirs = {m.group(0) for h in have for m in [re.match(r'.*?/(?:registry/src/[^/]+/[^/]+|library/core)/src/', h)] if m}
    for d in sorted(dirs):
        if 'library/core' in d:
            for f in ('option.rs', 'result.rs'): src.add_file(d + f)
            continue
        for f in sorted(glob.glob(d + '**/*.rs', recursive=True)): src.add_file(f)
    for c, v in program.EXTERN:
        ds = sorted(glob.glob(os.path.expanduser('~/.cargo/registry/src/*/%s-%s' % (c, v))))
        if ds and not any('/%s-' % c in d for d in dirs):
            for f in sorted(glob.glob(os.path.join(ds[-1], 'src', '**', '*.rs'), recursive=True)):
                if '/gen/' not in f and '/tests/' not in f: src.add_file(f)
    fns = []
    for m in mirs: fns += mirparse.load(m)
    return Ctx(fns, src)

# ------------------------------------------------------------ executing them
class DepLib(Lib):
    """as for the repository; a punctuation character also knows whether it is joined to the next one"""
    dep = None
    def items(self, ex, st, v):
        v = ex.resolve(st, ex.view(st, v))
        if isinstance(v, Adt) and v.n == 'Token' and isinstance(v.v, tuple): return (('p', v.v[1], 'joint'),)
        if isinstance(v, Adt) and v.n == 'Unknown': return (('h', v.fs[0]),)
        return Lib.items(self, ex, st, v)
    def to_tokens(self, ex, st, v, tok):
        """another impl's to_tokens is used through its contract"""
        v = self.deref(ex, st, v)
        ty = v.n if isinstance(v, Adt) else base_ty(v.ty) if isinstance(v, Sym) else None
        if ty == 'Option' and ex.variant(st, v) == 'None': return [(st, 'ret', UNIT)]
        if ty == 'Option': return self.to_tokens(ex, st, ex.proj(st, v, ('f', 0, (ty_args(v.ty) or ['?'])[0] if isinstance(v, Sym) else '?', 'Some')), tok)
        if ty in ('Cow', 'Box', 'RepInterp'):
            return self.to_tokens(ex, st, Sym(v.t, ty_args(v.ty)[0]) if isinstance(v, Sym) else v.fs[0], tok)
        return self.append(ex, st, tok, self.items(ex, st, v))
    def call(self, ex, st, ci, vals):
        h = self.dep.hooks.get(ci['m']) if not getattr(ex, 'spec', False) else None
        if h is not None:
            r = h(self, ex, st, ci, vals)
            if r is not NotImplemented: return r if isinstance(r, list) else [(st, 'ret', r)]
        if ci['m'] == 'into' and ci['trait'] and ty_args(ci['trait'])[:1] == ['TokenTree']: return [(st, 'ret', vals[0])]
        if ci['m'] == 'new' and base_ty(ci['ty'] or '') == 'Punct':
            c, sp = vals[0][1], ex.resolve(st, vals[1])
            return [(st, 'ret', Adt('Token', c if sp.v == 'Alone' else ('joint', c), ()))]
        return Lib.call(self, ex, st, ci, vals)

class DepEx(Ex):
    spec = False
    def const(self, st, s):
        if s.strip().startswith('b"'): return Sym(('bytes', s.strip()), '&[u8]')       # the text of a panic
        return Ex.const(self, st, s)
    def find_body(self, st, ci, vals):
        if ci['m'] in ('unwrap_failed', 'expect_failed'): raise Diverge(ci['m'])
        if ci['m'] in self.dep.hooks: return None
        if ci['kind'] == 'trait' and re.match(r'^[A-Z]\w?$|^<', ci['ty']): return None      # a type parameter
        return Ex.find_body(self, st, ci, vals)
    def call_value(self, st, f, args):
        g = self.resolve(st, f)
        while isinstance(g, Ref): g = self.resolve(st, self.read_loc(st, (g.cell, g.path)))
        if isinstance(g, Sym):
            st = st.fork()
            a = tuple(self.view(st, x) for x in args)
            n = st.heap.get(('calls',), Seq(()))
            st.heap[('calls',)] = Seq(n.segs + (('e', tup(g, *a)),))
            return [(st, 'ret', Sym(('call', g.t, len(n.segs)) + a, self.dep.ret))]
        return Ex.call_value(self, st, f, args)

class Strict(Eq):
    """errors are compared too"""
    def eq(self, a, b, d=0):
        if isinstance(a, Adt) and isinstance(b, Adt) and a.n == b.n == 'Result' and a.v == b.v == 'Err': return self.eq(a.fs[0], b.fs[0], d + 1)
        return Eq.eq(self, a, b, d)

class Dep:
    """fn      where the body is: (regex on its name, which one)
       callee  the call as the repository's MIR has it
       args    (name, type, mode): val, ref, toks (&mut of an unknown token stream), mut (&mut of an unknown), lit
       ret     what an opaque function passed in returns
       same    turns a result of the body into what lib.py talks about"""
    def __init__(self, crate, fn, callee, args, ret='?', hooks=None, same=None, pre=None, spec=None, covers=None):
        self.covers = covers
        self.crate, self.fn, self.callee, self.args, self.ret = crate, fn, callee, args, ret
        self.hooks, self.same, self.pre, self.spec = hooks or {}, same, pre, spec
        self.key = re.sub(r'::<.*?>(?=::|$)', '', callee)

def find(ctx, d):
    c = [f for f in ctx.fns if f.kind == 'fn' and re.search(d.fn, RS.sub('', REG.sub('', f.name)) + '(' + ', '.join('_%d: %s' % (i + 1, t) for i, (_, t) in enumerate(f.args)) + ') -> ' + f.ret)]
    if len(c) > 1 and len({str(f.body) if hasattr(f, 'body') else id(f) for f in c}) > 1: raise Unsupported('%d functions match %s: %s' % (len(c), d.fn, [f.name[-60:] for f in c[:4]]))
    return c[0] if c else None

def start(ex, d, spec=False):
    st = State({}, {})
    args = []
    for n, ty, mode in d.args:
        if mode == 'val': args.append(Sym(('v', n), ty))
        elif mode == 'ref': args.append(Ref(('ext', ('v', n), Sym(('v', n), ty)), ()))
        elif mode == 'fmt': st.heap[('mut', n)] = Str(()); args.append(Ref(('mut', n), ()))
        elif mode == 'toks': st.heap[('mut', n)] = Toks((('h', Sym(('v', n), 'TokenStream')),)); args.append(Ref(('mut', n), ()))
        elif mode in ('acc', 'accv'):
            e = Seq((('all', ('v', n), 'Error'),))
            v = Acc(e) if spec else Adt('Accumulator', None, (Adt('Option', 'Some', (e,)),))
            if mode == 'accv': args.append(v)
            else: st.heap[('mut', n)] = v; args.append(Ref(('mut', n), ()))
        elif mode == 'mut': st.heap[('mut', n)] = Sym(('v', n), ty); args.append(Ref(('mut', n), ()))
        else: args.append((mode(st, spec) if 'spec' in mode.__code__.co_varnames else mode(st)) if callable(mode) else mode)
    if d.pre: d.pre(st)
    return st, args

def spec_outcomes(ex, d, st0, args):
    ci = dict(callee_info(d.callee), dty='')
    out, work = [], [st0.fork()]
    while work:
        s = work.pop()
        t = s.fork()
        try:
            ex.spec = True
            if d.spec: r = [(t, 'ret', d.spec(ex.lib, ex, t, args))]
            else: r = Lib.call(ex.lib, ex, t, ci, list(args))
            out += r
        except Fork as f:
            for g in f.alts:
                s2 = s.fork()
                if all(add_lit(ex.ctx, s2.pc, l) for l in g): work.append(s2)
        except (Panic, Diverge) as p: out.append((t, 'panic', str(p)))
        finally: ex.spec = False
    return out

KINDS = {}
def lift(v):
    """darling's own data in the terms lib.py uses for it"""
    if isinstance(v, Adt):
        fs = tuple(lift(x) for x in v.fs)
        if v.n == 'Accumulator' and v.v is None and isinstance(fs[0], Adt) and fs[0].v == 'Some': return Acc(fs[0].fs[0])
        if v.n == 'Error' and v.v is None and len(fs) == 3 and isinstance(fs[0], Adt) and fs[0].n == 'ErrorKind':
            return Adt('DarlingError', re.sub(r'(?<=[a-z])(?=[A-Z])', '_', fs[0].v).lower(), fs[0].fs)
        return Adt(v.n, v.v, fs)
    if isinstance(v, Seq): return Seq(tuple((g[0], lift(g[1])) if g[0] == 'e' else g for g in v.segs))
    if isinstance(v, Acc): return Acc(lift(v.errs))
    if isinstance(v, Cases): return Cases(tuple((g, lift(x)) for g, x in v.cs))
    return v

def unjoin(items):
    """every character of a multi-character token but the last is joined to the next: the form lib.py leaves implicit"""
    return tuple(('g', x[1], unjoin(x[2])) if x[0] == 'g' else x[:2] if x[0] == 'p' else x for x in items)

def joints_ok(got, want):
    """got prints exactly the characters of want, joined exactly within one token"""
    g = [x for x in got if x[0] == 'p']; w = [x for x in want if x[0] == 'p']
    return len(g) == len(w) and all((len(x) == 3) == (k + 1 < len(g)) for k, x in enumerate(g))

def prove(ctx, d):
    t0 = time.time()
    R = dict(contract=d.key, crate=d.crate, callee=d.callee, obligations=0, discharged=0, paths=0, status='ok', note='', failures=[], covers=None, full=bool(d.covers))
    try:
        fn = find(ctx, d)
        if fn is None: R['status'], R['note'] = 'lost', 'no function'; return R
        lb = DepLib(); lb.dep = d
        ex = DepEx(ctx, lb, 400000); ex.dep = d
        R['function'] = RS.sub('', REG.sub('', fn.name))
        st0, args = start(ex, d)
        outs = ex.run_fn(fn, list(args), st0.fork())
        R['assumed'], ex.assumed = sorted(str(a) for a in ex.assumed), set()
        specs = spec_outcomes(ex, d, *start(ex, d, True))
        z = Z(ctx)
        R['paths'] = len(outs)
        R['obligations'] += 1
        if z.sat(z.pc(st0.pc), z3.Not(z3.Or([z.pc(s.pc) for s, _, _ in outs]))) == 'unsat': R['discharged'] += 1
        else: R['failures'].append('the paths do not cover'); R['status'] = 'failed'
        muts = [('mut', n) for n, _, m in d.args if m in ('toks', 'mut', 'fmt', 'acc')] + [('calls',)]
        for s, kind, v in outs:
            pz = z.pc(s.pc)
            if z.sat(pz) != 'sat': continue
            comps = ['result'] + muts
            fz = {c: [] for c in comps}
            cover = []
            bad = None
            for q, qk, qv in specs:
                m = dict(s.pc)
                if not all(add_lit(ctx, m, l) for l in lits_of(q.pc, {})): continue
                qz = z.pc(q.pc)
                if z.sat(pz, qz) != 'sat': continue
                cover.append(qz)
                both = State(dict(s.heap), m)
                if kind != qk:
                    for c in comps: fz[c].append(qz)
                    bad = '%s against %s' % (kind, qk); continue
                for c in comps:
                    if c == 'result':
                        if kind == 'panic': continue
                        a, b = ex.view(s, v), ex.view(q, qv)
                    else: a, b = ex.view(s, s.heap.get(c, Seq(()))), ex.view(q, q.heap.get(c, Seq(())))
                    if kind == 'panic' and c[0] == 'mut': continue
                    a = lift(a)
                    if d.same: a, b = d.same(ex, both, c, a, True), d.same(ex, both, c, b, False)
                    if isinstance(a, Toks) and isinstance(b, Toks):
                        if not joints_ok(a.items, b.items): fz[c].append(qz); bad = 'spacing of %s' % show(a); continue
                        a = Toks(unjoin(a.items))
                    e = Strict(ex, both).eq(a, b)
                    f = z3.And(qz, z.f(NOT(e)))
                    fz[c].append(f)
                    if e is not True and z.sat(pz, f) == 'sat': bad = '%s: %s, lib.py says %s' % (c, show(a)[:600], show(b)[:600])
            for c in comps:
                R['obligations'] += 1
                if z.sat(pz, z3.Or(fz[c] + [z3.Not(z3.Or(cover)) if cover else z3.BoolVal(True)])) == 'unsat': R['discharged'] += 1
                else: R['status'] = 'failed'; R['failures'].append(bad or 'lib.py says nothing about this path')
        R['solver_s'], R['queries'] = round(z.time, 3), z.queries
        m = re.match(r'push_', d.callee.split('::')[-1]) and 'quote::push_*'
        R['covers'] = d.covers or m or next((str(a) for a in sorted(ex.assumed, key=str) if re.sub(r'::<.*', '', re.sub(r'.*>::', '', d.callee)).split('::')[-1] == str(a).split('::')[-1]), None)
    except (Unsupported, Budget) as e: R['status'], R['note'] = 'unsupported', '%s %s' % (type(e).__name__, e)
    except Exception as e:
        import traceback
        R['status'], R['note'] = 'unsupported', 'internal: %r at %s' % (e, ' | '.join(x.strip() for x in traceback.format_exc().strip().split('\n')[-6:-1]))
    R['wall_s'] = round(time.time() - t0, 2)
    return R

from depspecs import DEPS

def main():
    scratch, out = sys.argv[1:3]
    only = sys.argv[3] if len(sys.argv) > 3 else ''
    os.makedirs(scratch, exist_ok=True)
    res, errs = [], []
    for crate in ('core', 'quote', 'darling_core', 'syn'):
        ds = [d for d in DEPS if d.crate == crate and re.search(only, d.key)]
        if not ds: continue
        try:
            m = os.path.join(scratch, crate + '.mir')
            if not (os.environ.get('DEPS_REUSE') and os.path.exists(m)): m = emit_core(scratch) if crate == 'core' else emit_dep(crate, scratch)
            ctx = load([m])
        except Exception as e: errs.append('%s: %s: %s' % (crate, type(e).__name__, str(e)[-600:])); continue
        for d in ds: res.append(prove(ctx, d))
    json.dump(dict(results=res, errors=errs), open(out, 'w'), indent=1)
    return res, errs
if __name__ == '__main__':
    res, errs = main()
    for e in errs: print('error', e)
    for r in res:
        if r['status'] != 'ok': print(r['status'], r['contract'], r['note'], r['failures'][:2])
    print('%d of %d dependency contracts discharged, %d/%d obligations' % (sum(r['status'] == 'ok' for r in res), len(res), sum(r['discharged'] for r in res), sum(r['obligations'] for r in res)))
