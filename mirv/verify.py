"""Verify functions against contracts: symbolic execution of the compiler's MIR generates one
obligation per path and result component; Z3 discharges them."""
import time, re, sys
import z3
from values import *
from mirparse import Unsupported, base_ty
from ex import Ex, State, Fork, Budget, Diverge, lits_of, add_lit
from lib import Lib
from canon import canon
from spec import *

class Contract:
    """key      'Type::method', '<Type as Trait>::method' or a free function's name
       args     [(name, type, mode)]; mode: ref (&T to an unknown), val (an unknown T), toks (&mut TokenStream),
                mut (&mut to the value built by init(S))
       kind     'value' (specifies the result), 'tokens' (what is appended to the stream argument),
                'mut' (specifies the final values of the mut arguments and the result)
       spec     function (S, *args) -> value | dict component -> (labels, thunk) | LT
       requires function (S, *args) -> bool, assumed by the proof and checked at call sites
       opaque   result type when callers see only an application of the contract (value kind)
       labels   properties a difference in the whole result breaks (value kind without components)"""
    def __init__(self, key, args, kind, spec, requires=None, opaque=None, labels='', unfold=False, init=None, parts=None, alias=()):
        self.key, self.args, self.kind, self.spec, self.requires = key, args, kind, spec, requires
        self.opaque, self.labels, self.unfold, self.init = opaque, labels, unfold, init
        self.alias, self.parts = alias, parts
        self.record, self.recursive = None, False
        self.inline = kind != 'tokens' and not opaque and not unfold     # callers run the body

    def apply(self, ex, st, vals, fn):
        """at a call site: the contract, not the body"""
        S0 = S(ex, st)
        if self.requires is not None:
            for s, k, v in leaves(ex, st, lambda S: self.requires(S, *(vals[:1] if self.kind == 'tokens' else vals))):
                if k != 'ret' or v is not True: ex.requires_fail.append((self.key, dict(s.pc), [ex.view(st, x) for x in vals]))
        if self.kind == 'tokens':
            v = ex.lib.deref(ex, st, vals[0])
            if self.opaque:
                return ex.lib.append(ex, st, vals[1], (('h', ex.view(st, v)),))
            outs = []
            for s, k, r in leaves(ex, st, lambda S: self.spec(S, vals[0])):
                if k == 'panic': outs.append((s, 'panic', r)); continue
                ex.lib.append(ex, s, vals[1], r.plain()); outs.append((s, 'ret', UNIT))
            return outs
        if self.opaque:
            return [(st, 'ret', S0.app(self.key, self.opaque, *vals))]
        if self.unfold:
            r0 = self.spec(S0, *vals)
            if isinstance(r0, dict):
                fs = {n: S0.cases(th) for n, (lb, th) in r0.items()}
                return [(st, 'ret', Adt(self.unfold, None, tuple(fs[n] for n, _ in ex.ctx.fields(self.unfold))))]
            return [(st, 'ret', r0)]
        raise Unsupported('contract ' + self.key)

    def recurse(self, ex, st, vals):
        """the contract as the meaning of a call which its own function makes (on a smaller argument: termination is not proved)"""
        if self.kind != 'value' or self.requires is not None or any(m not in ('ref', 'val') for _, _, m in self.args): raise Unsupported('recursion of ' + self.key)
        outs = []
        for s, k, v in leaves(ex, st, lambda S: self.spec(S, *vals)):
            if isinstance(v, (dict, LT)): raise Unsupported('recursion of ' + self.key)
            outs.append((s, k, v))
        return outs

class Z:
    """translation of guards and formulas to Z3"""
    def __init__(self, ctx):
        self.ctx, self.vars, self.ids = ctx, {}, {}
        self.solver = z3.Solver()
        self.solver.set('timeout', 60000)
        self.queries, self.time, self.done = 0, 0.0, set()
    def dom(self, a):
        if a[0] == 'disc': return self.ctx.variants(a[2])
        if a[0] in ('str', 'int'): return None
        return (False, True)
    def var(self, a):
        v = self.vars.get(a)
        if v is None:
            d = self.dom(a)
            n = 'a%d' % len(self.vars)
            if d is not None and set(d) <= {True, False}: v = z3.Bool(n)
            else:
                v = z3.Int(n)
                if d is not None: self.solver.add(v >= 0, v < len(d))
            self.vars[a] = v
            e, n = (a, ('int', ('len', a[1]))) if a[0] == 'empty' else (('empty', a[1][1]), a) if a[0] == 'int' and isinstance(a[1], tuple) and a[1][0] == 'len' else (None, None)
            if e in self.vars and n in self.vars: self.solver.add(self.vars[e] == self.lit((n, '=', 0)))     # a list is empty when its length is 0
        return v
    def lit(self, l):
        a, op, x = l
        v, d = self.var(a), self.dom(a)
        def one(x):
            if z3.is_bool(v): return v if x else z3.Not(v)
            if d is not None: return v == list(d).index(x)
            return v == self.ids.setdefault((a, x), len(self.ids))
        if op == '=': return one(x)
        return z3.And([z3.Not(one(y)) for y in x]) if x else z3.BoolVal(True)
    def f(self, x):
        if isinstance(x, bool): return z3.BoolVal(x)
        if x[0] == 'lit': return self.lit(x[1])
        if x[0] == 'not': return z3.Not(self.f(x[1]))
        if x[0] == 'and': return z3.And([self.f(y) for y in x[1:]])
        if x[0] == 'or': return z3.Or([self.f(y) for y in x[1:]])
        raise Unsupported('formula %s' % (x,))
    def anys(self, pc):
        """`some element of the list satisfies p`, with p simplified by what the path knows, is the same condition"""
        for a in [a for a in self.vars if a[0] == 'any']:
            c = canon(self.ctx, pc, a[2])
            if c == a[2] or (a, c) in self.done: continue
            g = [(x, o, v) for x, (o, v) in pc.items() if any(l[0] == x for h, _ in a[2] for l in h)]
            self.done.add((a, c))
            if all(b is False for _, b in c): r = z3.BoolVal(False)
            elif all(b is True for _, b in c): r = z3.Not(self.var(('empty', a[1])))
            else: r = self.var(('any', a[1], c))
            self.solver.add(z3.Implies(z3.And([self.lit(l) for l in g]), self.var(a) == r))
    def pc(self, pc): return z3.And([self.lit((a, o, x)) for a, (o, x) in pc.items()]) if pc else z3.BoolVal(True)
    def sat(self, *fs):
        """'sat' | 'unsat' | 'unknown'"""
        t = time.time()
        fs = list(fs)          # translate before push so that domain facts persist
        self.solver.push()
        self.solver.add(*fs)
        r = str(self.solver.check())
        self.model = self.solver.model() if r == 'sat' else None
        self.solver.pop()
        self.queries += 1; self.time += time.time() - t
        return r

class Result:
    def __init__(self, key):
        self.key = key; self.status = 'ok'; self.obligations = 0; self.discharged = 0
        self.failures = []      # dict(labels, component, pc, spec, impl)
        self.paths = 0; self.note = ''; self.solver_s = 0.0; self.queries = 0; self.wall = 0.0
        self.assumed = set(); self.used = set(); self.touched = set()
        self.by = {}            # label -> [obligations, discharged]

def find_fn(ctx, key):
    m = re.match(r'^<(.*) as (.*)>::(\w+)$', key)
    if m: return ctx.method(m.group(1), m.group(3), m.group(2))
    if '::' in key:
        t, n = key.rsplit('::', 1)
        return ctx.method(t, n)
    return ctx.free.get(key)

def verify(ctx, c, contracts, budget=1500000):
    t0 = time.time()
    R = Result(c.key)
    try: return _verify(ctx, c, contracts, budget, R)
    except (Unsupported, Budget) as e:
        R.status, R.note = 'unsupported', '%s %s' % (type(e).__name__, e)
        return R
    except Exception as e:
        import traceback
        R.status, R.note = 'unsupported', 'internal: %r at %s' % (e, traceback.format_exc().strip().split('\n')[-3].strip())
        return R
    finally: R.wall = time.time() - t0

def _verify(ctx, c, contracts, budget, R):
    if c.kind == 'parser':
        if (c.ty, c.method) not in ctx.derived: R.status, R.note = 'lost', 'no function ' + c.key
        else: c.prove(ctx, contracts, budget, R)
        return R
    fn = find_fn(ctx, c.key)
    if fn is None:
        R.status, R.note = 'lost', 'no function ' + c.key
        return R
    ex = Ex(ctx, Lib(), budget)
    ex.active = {k: x for k, x in contracts.items() if not x.inline and (k != c.key or x.recursive)}
    ex.contracts, ex.proving = contracts, c.key
    ex.exists = lambda c: find_fn(ctx, c.key) is not None
    st = State({}, {})
    args = []
    muts = []
    for a in c.args:
        n, ty, mode = a
        if mode == 'ref': args.append(Ref(('ext', ('v', n), Sym(('v', n), ty)), ()))
        elif mode == 'val': args.append(Sym(('v', n), ty))
        elif mode == 'toks':
            st.heap[('tok',)] = Toks(()); args.append(Ref(('tok',), ()))
        elif mode == 'mut':
            st.heap[('mut', n)] = Sym(('v', n), ty); args.append(Ref(('mut', n), ())); muts.append(('mut', n))
        elif mode == 'fmt':
            st.heap[('mut', n)] = Str(()); args.append(Ref(('mut', n), ()))
        elif mode == 'init':
            v = c.init(st); args.append(v)
    sargs = [a for a, (n, ty, mode) in zip(args, c.args) if mode not in ('toks', 'fmt')]
    if len(fn.args) != len(args):
        R.status, R.note = 'lost', 'signature of %s changed' % c.key
        return R
    z = Z(ctx)
    starts = [(st, None)]
    if c.requires is not None:
        starts = []
        for s, k, v in leaves(ex, st, lambda S: c.requires(S, *sargs)):
            if k == 'ret' and v is True: starts.append((s, None))
    outs = []
    pre = []
    for s, _ in starts:
        pre.append(dict(s.pc))
        outs += ex.run_fn(fn, list(args), s.fork())
    R.paths = len(outs)
    for g, a, gs in ex.axioms: z.solver.add(z3.Implies(z3.And(z.pc(g), z.lit(a)), z3.Or([z3.And([z.lit(l) for l in h]) for h in gs])))
    # cover: the paths explored are all there are
    prez = z3.Or([z.pc(p) for p in pre])
    allp = [z.pc(s.pc) for s, _, _ in outs]
    R.obligations += 1
    r = z.sat(prez, z3.Not(z3.Or(allp)))
    if r == 'unsat': R.discharged += 1
    else: R.failures.append(dict(labels=None, component='paths', pc={}, why='paths do not cover the precondition (%s)' % r)); R.status = 'failed'
    if not outs: R.status, R.note = 'unsupported', 'no path'; return R
    for (s, kind, v), pz in zip(outs, allp):
        if z.sat(pz) != 'sat':
            continue
        if kind == 'panic':
            # allowed only where the specification panics
            sp = leaves(ex, s, lambda S: run_all(c, S, sargs))
            bad = [q for q in sp if q[1] != 'panic']
            R.obligations += 1
            if bad and z.sat(z.pc(bad[0][0].pc)) == 'sat':
                R.status = 'failed'
                R.failures.append(dict(labels=None, component='panic', pc=dict(bad[0][0].pc), why='panics: %s' % (v,)))
            else: R.discharged += 1
            continue
        if c.kind == 'tokens':
            got = ex.view(s, s.heap[('tok',)])
            got = Toks(undoc(got.items))
            comps = {'tokens': (None, lambda S: c.spec(S, *sargs), got)}
        elif c.kind == 'mut':
            d = c.spec(S(ex, State({k: x for k, x in st.heap.items()}, dict(s.pc))), *sargs)
            comps = {}
            for n, (lb, th) in d.items():
                comps[n] = (lb, th, ex.view(s, v) if n == 'result' else ex.view(s, s.heap[('mut', n)] if ('mut', n) in s.heap else s.heap[n]))
        else:
            got = ex.view(s, v)
            d = None
            if (c.unfold or getattr(c, 'record', None)) and c.parts is None:
                d = c.spec(S(ex, s), *sargs)
            if c.parts is not None:
                d = c.spec(S(ex, s), *sargs)
                comps = {}
                gp = c.parts(S(ex, s), got)
                for n, (lb, th) in d.items():
                    if n == 'shape': continue
                    if gp is None or n not in gp:
                        R.obligations += 1; R.status = 'failed'
                        R.failures.append(dict(labels=labels(d['shape'][0] if 'shape' in d else lb), component=n, pc=dict(s.pc), spec='', impl=show(got), why='the result has another shape'))
                        break
                    comps[n] = (lb, th, gp[n])
            elif isinstance(d, dict):
                name = c.unfold or c.record
                got = ex.expand(s, ex.resolve(s, got)) if not isinstance(got, Cases) else got
                fs = ctx.fields(name)
                comps = {}
                if isinstance(got, Cases):
                    raise Unsupported('record result by cases')
                for i, (n, _) in enumerate(fs):
                    if n in d: comps[n] = (d[n][0], d[n][1], got.fs[i])
                    else: comps[n] = ('', None, got.fs[i])
                missing = [n for n in d if n not in [x for x, _ in fs]]
                if missing: raise Unsupported('field %s of %s is gone' % (missing, name))
            else: comps = {'result': (c.labels, lambda S: c.spec(S, *sargs), got)}
        for n, (lb, th, got) in comps.items():
            if th is None: continue
            base = State(dict(s.heap), dict(s.pc))
            # specification terms are evaluated in the pre-state
            base.heap = {k: x for k, x in s.heap.items()}
            for k, x in st.heap.items(): base.heap[k] = x
            sp = leaves(ex, base, th)
            fs, info = [], []
            for q, kk, sv in sp:
                if kk == 'panic':
                    fs.append(z.pc(q.pc)); info.append((q, sv, None)); continue
                if isinstance(sv, LT): sv = undoc_lt(sv)
                info_v = sv
                plain = Toks(sv.plain()) if isinstance(sv, LT) else ex.view(q, sv)
                e = Eq(ex, q).eq(got if not isinstance(got, Cases) or True else got, plain)
                fs.append(z3.And(z.pc(q.pc), z.f(NOT(e)))); info.append((q, sv, e))
            z.anys(s.pc)
            for q, _, _ in info: z.anys(q.pc)
            cover = z3.Not(z3.Or([z.pc(q.pc) for q, _, _ in sp])) if sp else z3.BoolVal(True)
            R.obligations += 1
            lbs = set()
            bad = z.sat(pz, z3.Or(fs + [cover]))
            if bad == 'unsat':
                R.discharged += 1
            else:
                R.status = 'failed'
                found = False
                for fz, (q, sv, e) in zip(fs, info):
                    if bad == 'sat' and z.sat(pz, fz) != 'sat': continue
                    found = True
                    if isinstance(sv, LT):
                        g2 = got.items if isinstance(got, Toks) else (('h', got),)
                        lb2 = blame(ex, q, sv, g2)
                    else: lb2 = labels(pick(lb or c.labels, sv, got))
                    why = 'solver answered ' + bad if bad != 'sat' else ''
                    body = isinstance(sv, LT) and body_only(ex, q, z, c.key, pz, sv, got)
                    R.failures.append(dict(labels=frozenset(lb2), component=n, pc=dict(q.pc), spec=show(Toks(sv.plain())) if isinstance(sv, LT) else show(sv) if not isinstance(sv, str) else sv,
                                           impl=show(got), why=why, got=repr(got), body=body, roots=isinstance(sv, LT) and bad == 'sat' and roots_kept(sv, got)))
                if not found: R.failures.append(dict(labels=None, component=n, pc=dict(s.pc), why='specification does not cover this path (%s)' % bad))
    if ex.requires_fail:
        for key, pc, vals in ex.requires_fail:
            R.obligations += 1
            if z.sat(z.pc(pc)) == 'sat':
                R.status = 'failed'
                R.failures.append(dict(labels=None, component='precondition of ' + key, pc=pc, why='not established'))
            else: R.discharged += 1
    R.solver_s, R.queries = z.time, z.queries
    R.assumed, R.used, R.touched = ex.assumed, ex.used_contracts, ex.touched
    return R

def alpha(seg):
    """a function's signature with its generic parameters and value parameters numbered"""
    names, seg = {}, list(seg)
    if len(seg) > 1 and seg[1] == ('p', '<'):
        d = 0
        for k in range(1, len(seg)):
            it = seg[k]
            if it == ('p', '<'): d += 1
            elif it == ('p', '>') and seg[k-1] != ('p', '-'):
                d -= 1
                if not d: break
            elif it[0] == 'i' and d == 1 and seg[k-1] in (('p', '<'), ('p', ',')): names.setdefault(it[1], '$%d' % len(names))
    for k, it in enumerate(seg):
        if it[0] == 'g' and it[1] == '(':
            x = it[2]
            for n in range(len(x) - 1):
                if x[n][0] == 'i' and x[n+1] == ('p', ':') and (n + 2 >= len(x) or x[n+2] != ('p', ':')) and (n == 0 or x[n-1] in (('p', ','), ('i', 'mut'))): names.setdefault(x[n][1], '$%d' % len(names))
            seg[k] = ('g', '(', tuple(y for n, y in enumerate(x) if not (y == ('i', 'mut') and n + 2 < len(x) and x[n+1][0] == 'i' and x[n+2] == ('p', ':'))))
            break
    def ren(its): return [('i', names[x[1]]) if x[0] == 'i' and x[1] in names else ('g', x[1], tuple(ren(x[2]))) if x[0] == 'g' else x for x in its]
    return seg[:1] + ren(seg[1:])

def erased(key, items):
    """the tokens without the statements of function bodies, parameters numbered; of an initializer, the field's name only"""
    if key.startswith('<Initializer '): return tuple(items[:2]) + tuple(items[-1:])
    out, fn = [], None
    for it in items:
        if it[0] == 'g' and it[1] == '{' and fn is not None:
            out[fn:] = alpha(out[fn:]) + [('g', '{', ())]
            fn = None; continue
        if it[0] == 'g' and fn is None: it = ('g', it[1], erased('', it[2]))
        out.append(it)
        if it == ('i', 'fn'): fn = len(out)
    return tuple(out)

def body_only(ex, q, z, key, pz, sv, got):
    if not isinstance(got, Toks) or not key.endswith('ToTokens>::to_tokens'): return False
    try: return z.sat(pz, z.pc(q.pc), z.f(NOT(Eq(ex, q).eq(Toks(erased(key, got.items)), Toks(erased(key, sv.plain())))))) == 'unsat'
    except Exception: return False

def roots(items, out):
    """what the paths of a token stream start with, and everything in it that is not written by the generator itself"""
    its = list(items)
    C = ('p', ':')
    for k, it in enumerate(its):
        if it[0] == 'g': roots(it[2], out); continue
        if it[0] in ('fm', 'sep'):
            out.add(('over', repr(it[1])))
            for _, b in it[2]: roots(b, out)
            continue
        if it[0] not in ('i', 'p', 'l', 'lt'): out.add(('part', repr(it)))
        if it == C and k + 1 < len(its) and its[k+1] == C and (k == 0 or its[k-1] != C):
            pr = its[k-1] if k else None
            if pr is None or pr[0] in ('p', 'g', 'l', 'lt') and pr != ('p', '>') or pr == ('i', 'mut') or pr == ('i', 'as') or pr == ('i', 'for') or pr == ('i', 'return'): out.add(('absolute', repr(its[k+2:k+3])))
            elif pr != ('p', '>') and not (k >= 3 and its[k-2] == C and its[k-3] == C): out.add(('head', repr(pr)))
    return out

def roots_kept(sv, got):
    """every path of `got` starts like one of the contract's, and `got` prints nothing of the input the contract does not"""
    if not isinstance(got, Toks): return False
    try:
        def n(x):
            x = re.sub(r", ty='[^']*'", '', repr(x)); y = None
            while x != y: y, x = x, re.sub(r"\('f', (\((?:[^()]|\([^()]*\))*\)), 'Some\.0'\)", r'\1', x)
            return x
        return {n(x) for x in roots(got.items, set())} <= {n(x) for x in roots(sv.plain(), set())}
    except Exception: return False

def pick(l, a, b):
    """labels (same, other): other applies when one result is accepted and the other is not"""
    if not isinstance(l, tuple): return l
    same = isinstance(a, Adt) and isinstance(b, Adt) and a.n == b.n == 'Result' and a.v == b.v
    if same and a.v == 'Err' and isinstance(a.fs[0], Adt) and a.fs[0].n == 'Rejected': return l[1]     # another set of conflicts is reported
    return l[0] if same else l[1]

def run_all(c, S, sargs):
    r = c.spec(S, *sargs)
    if isinstance(r, dict):
        for n, (lb, th) in r.items(): th(S)
    return r
