#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current working tree.

The deciding step: every contract the property depends on is proved on the compiler's MIR of the current
source (mirv/), one obligation per path and result component, discharged by Z3.  Next to it run two
bounded searches on the real code (concrete/): the expansion of generated inputs against an independent
structural oracle, and generated builders compiled and run against a reference interpreter.  They turn a
failed obligation into a failing input, and stand in (bounded, never counted as proved) where a contract
could not be decided.  Exit 0: held; exit 1 with VIOLATION line: broken."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'concrete'), os.path.join(HERE, 'mirv')]
PID = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
THOROUGH = TIER == 'thorough'
BODIES = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C16', 'C17', 'C19', 'C20'}     # decided by what the generated functions do
RUNTIME = set('C%02d' % i for i in range(1, 23)) - {'C14'}
CHECKER = 'python3-vt mirv/prove.py (rustc MIR of /repo, Z3 %s)'
TRUSTED = [
    'rustc: the MIR it prints (--emit=mir, debug-assertions off) is the code that runs',
    'mirv: the MIR reader and symbolic executor, the contract language and its equality rules',
    'Z3 (through python3-vt), asked one satisfiability question per obligation',
    'assumed contracts on std, proc-macro2, quote and syn (mirv/lib.py); spans are erased, so hygiene and error locations are not modelled',
    "assumed contracts on the functions of darling that derived parsers call (FromMeta of the standard types, Accumulator, Flag); the derived parsers themselves are under contract",
    'the meaning of the generated tokens when compiled (rustc on the user\'s side); exercised, not proved, by the run-time suite',
]

def sh(cmd, timeout=600): return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)

class Bg(threading.Thread):
    def __init__(self, f, *a):
        super().__init__(daemon=True); self.f, self.a, self.r, self.e = f, a, None, None; self.start()
    def run(self):
        t = time.time()
        try: self.r = self.f(*self.a)
        except BaseException as e:
            import traceback
            self.e = '%s: %s' % (type(e).__name__, str(e)[-3000:]); self.tb = traceback.format_exc()
        self.t = time.time() - t
    def get(self): self.join(); return self.r

def prove(scratch, crate, feats, keys):
    out = os.path.join(scratch, 'out.json')
    os.makedirs(scratch)
    r = sh(['python3-vt', os.path.join(HERE, 'mirv', 'prove.py'), scratch, out, crate, ','.join(feats) or '-'] + keys, 800)
    if not os.path.exists(out): return dict(error='the prover stopped: ' + r.stderr[-1500:], results=[])
    return json.load(open(out))

def dependencies(scratch):
    """the contracts assumed of dependencies, proved on the dependencies' own code"""
    sys.path.insert(0, os.path.join(HERE, 'mirv'))
    os.makedirs(scratch)
    out = os.path.join(scratch, 'out.json')
    sh(['python3-vt', os.path.join(HERE, 'mirv', 'deps.py'), scratch, out], 500)
    return json.load(open(out))

def structural_part(a):
    """worker: run a slice of the inputs"""
    import structural
    driver, structs, seed, feats = a
    bad, n = structural.run(driver, structs, seed, feats)
    return bad, n

def inputs(seed, nrand, only_random=False):
    import gen
    rnd = random.Random(repr(('st', seed)))
    fixed = [] if only_random else gen.systematic() + gen.conflicts() + gen.harvested(os.environ.get('VERIF_REPO', '/repo'))
    return fixed + [gen.rand_struct(rnd) for _ in range(nrand)]

def run_structural(driver, ss, seed, feats, procs):
    import multiprocessing
    step = (len(ss) + procs * 3 - 1) // (procs * 3)
    parts = [(driver, ss[i:i+step], seed + i, feats) for i in range(0, len(ss), step)]
    bad, n = [], 0
    with multiprocessing.get_context('fork').Pool(procs) as p:
        for b, k in p.imap_unordered(structural_part, parts): bad += b; n += k
    return bad, n

def build_driver(scratch, feats):
    import structural as st
    os.makedirs(scratch)
    fl = {('lib_has_std',): ('default',), (): (), ('alloc',): ('alloc',)}[feats]
    return st.build_driver(os.path.join(scratch, 'target'), fl)

def structural(db, nrand, feats, procs):
    d = db.get()
    if d is None: raise RuntimeError(db.e)
    ss = inputs(SEED, nrand)
    bad, n = run_structural(d, ss, SEED, feats, procs)
    return dict(driver=d, bad=bad, n=n, feats=feats)

def generated(scratch, db, make, procs):
    """contracts on the generated functions of a family of structs (mirv/layerb.py), in a process of its own"""
    import pickle
    d = db.get()
    if d is None: raise RuntimeError(db.e)
    os.makedirs(scratch)
    shapes = make()
    inp, out = os.path.join(scratch, 'in.pickle'), os.path.join(scratch, 'out.json')
    with open(inp, 'wb') as f: pickle.dump(shapes, f)
    r = subprocess.run(['python3-vt', os.path.join(HERE, 'mirv', 'layerb.py'), 'job', scratch, d, inp, out], capture_output=True, text=True, timeout=700, env=dict(os.environ, LB_PROCS=str(procs)))
    if not os.path.exists(out): raise RuntimeError('the family of generated code was not checked: ' + r.stderr[-1500:])
    return dict(json.load(open(out)), shapes=shapes)

def family():
    import layerb, gen
    fam = layerb.systematic() + layerb.rand_shapes(SEED, 60 if not THOROUGH else 600)
    if THOROUGH:
        rnd = random.Random(repr(('fam', SEED)))
        fam += [layerb.directed(s) for s in gen.systematic()[::2] + [gen.rand_struct(rnd) for _ in range(400)]]
    return fam

def replay_members(scratch, target, lb, ks, tag):
    """compile and run members of the family with real types: -> the run-time suite's result"""
    import layerb, runtime as R
    os.makedirs(scratch)
    cs = []
    for k in ks:
        try: c = layerb.runnable(lb['shapes'][k], 'case_fam%s%d' % (tag, k), random.Random(k))
        except Exception: continue
        c.lib = '::derive_builder'
        cs.append(c)
    if not cs: return None
    groups = R.write_crate(os.path.join(scratch, 'crate'), cs, SEED)
    bad, done = R.run_crate(os.path.join(scratch, 'crate'), target, groups)
    ids = {c.id for c in cs}
    return dict(cases={c.id: c for c in cs}, bad=[b for b in bad if b[1] in ids], done=done, dir=scratch)

def runtime(scratch, n):
    import runtime as rt
    os.makedirs(scratch)
    cs, bad, done = rt.suite(os.path.join(scratch, 'crate'), os.path.join(scratch, 'target'), SEED, n)
    return dict(cases={c.id: c for c in cs}, bad=bad, done=done, dir=scratch)

def attribute(rt, st):
    """properties a failure to compile speaks about"""
    failing = {i for p, i, m in rt['bad'] if p == ['compile']}
    out = []
    for p, i, m in rt['bad']:
        if p != ['compile']: out.append((p, i, m)); continue
        out.append((compile_props(rt, st, i, failing, m), i, m))
    return out

def features_of(c):
    s = c.s
    f = set()
    for x in s.fields:
        d = x.setter if isinstance(x.setter, dict) else {}
        if d.get('into') or s.setter.get('into') or d.get('strip_option') or s.setter.get('strip_option'): f.add('C09')
        if d.get('each'): f.add('C08')
        if x.try_setter or s.try_setter: f.add('C07')
        if d.get('skip') or s.setter.get('skip'): f.add('C06')
        if x.field_ty or x.field_build: f.add('C20')
        if x.default: f.add('C04')
    if s.default: f.add('C04')
    if s.validate: f.add('C05')
    if s.generics: f.add('C15')
    if s.error is not None: f.add('C17')
    if s.custom_constructor: f.add('C16')
    f.add({'owned': 'C02', None: 'C01'}.get(s.pattern, 'C01'))
    return f

def compile_props(rt, st, i, failing, msg):
    import structural as S
    from scenarios import SCEN
    if i in SCEN: return SCEN[i][0]
    c = rt['cases'][i]
    if st and st.get('driver'):
        bad, _ = S.run(st['driver'], [c.s], 0)
        p = sorted({x for q, m, _, _ in bad for x in q})
        if p: return p
    common = set.intersection(*[features_of(rt['cases'][k]) for k in failing if k in rt['cases']])
    passing = set()
    for k in (rt['done'] - failing) & set(rt['cases']): passing |= features_of(rt['cases'][k])
    sel = common - passing
    if sel: return sorted(sel)
    if 'rror' in msg and 'Error' in msg and common & {'C17'}: return ['C17']
    return sorted(common & {'C01', 'C02'}) or ['C02']

# mismatches inside the bodies of generated functions
BODY = re.compile(r"^(empty constructor sets|empty constructor body|Default body|default of|build expression of|initializer of|struct default|statements before|body of|validator is not|the field of|field .* with pattern|skipped field|missing field|setter body)")
WEAK = re.compile(r"^(empty constructor sets|empty constructor body|Default body|default of|build expression of|initializer of|struct default|statements before|where clause of|parameter of|body of|validator is not|the field of|field .* with pattern|skipped field|missing field|clone path|setter body|path |result type|receiver and result)")

def known_findings():
    p = os.path.join(HERE, 'known-findings.jsonl')
    return [json.loads(l) for l in open(p) if l.strip()] if os.path.exists(p) else []

def main():
    import registry
    keys = registry.for_property(PID)
    base = os.path.join(HERE, '.build'); os.makedirs(base, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=PID + '-', dir=base)
    try: return decide(registry, keys, scratch)
    finally: shutil.rmtree(scratch, ignore_errors=True)

def decide(registry, keys, scratch):
    j = lambda *a: os.path.join(scratch, *a)
    jobs = []
    by_crate = {}
    for k in keys: by_crate.setdefault(registry.ALL[k].crate, []).append(k)
    for crate, ks in by_crate.items():
        fsets = [{registry.CORE: ('lib_has_std',), registry.LIB: ('std',), registry.MACRO: ()}[crate]]
        if crate == registry.CORE and (PID == 'C17' or THOROUGH): fsets += [(), ('alloc',)]
        if crate == registry.CORE and THOROUGH: fsets += [('lib_has_std', 'clippy')]
        for f in fsets: jobs.append((crate, f, ks, Bg(prove, j('p-%s-%s' % (crate, '-'.join(f))), crate, f, ks)))
    nrand = 1200 if not THOROUGH else 30000
    sts = []
    db = Bg(build_driver, j('st'), ('lib_has_std',))
    if PID != 'C19':
        sts.append(Bg(structural, db, nrand, ('lib_has_std',), 4 if not THOROUGH else 8))
        if PID == 'C17': sts.append(Bg(structural, Bg(build_driver, j('st0'), ()), 0, (), 3))
    lbj = Bg(generated, j('lb'), db, family, 4 if not THOROUGH else 8) if PID in BODIES else None
    rtj = Bg(runtime, j('rt'), 60 if not THOROUGH else 600) if PID in RUNTIME else None

    import nostd
    nsj = Bg(nostd.run, j('ns')) if PID in nostd.PROPS else None
    deps = Bg(dependencies, j('deps')) if THOROUGH else None

    # ---- the proof
    proofs, undecided, failures, errors, bodyf, rooted = [], [], [], [], [], []
    for crate, f, ks, b in jobs:
        r = b.get()
        if r is None or r.get('error'):
            errors.append('%s [%s]: %s' % (crate, ','.join(f), b.e or r['error']))
            undecided += [dict(contract=k, features=list(f), why='the code could not be read') for k in ks]
            continue
        for x in r['results']:
            x['features'], x['crate'] = list(f), crate
            proofs.append(x)
            if x['status'] == 'failed':
                mine = [y for y in x['failures'] if PID in y['labels']]
                for y in mine:
                    if y.get('opaque'): undecided.append(dict(contract=x['contract'], features=list(f), why='open under a condition the verifier leaves uninterpreted: %s, %s, on path [%s]' % (x['contract'], y['component'], y['path'][-300:])))
                    elif PID == 'C18' and y.get('roots'): rooted.append(dict(contract=x['contract'], features=list(f), why='printed differently from the contract, %s, but every path starts where the contract says: %s' % (y['component'], y['impl'][:300])))
                    else: (bodyf if y.get('body') and PID in BODIES else failures).append(dict(y, contract=x['contract'], crate=crate, features=list(f)))
                x['mine'] = len(mine)
            elif x['status'] != 'ok': undecided.append(dict(contract=x['contract'], features=list(f), why='%s: %s' % (x['status'], x['note'])))
    # ---- the bounded searches
    st = [b.get() for b in sts]
    rt = rtj.get() if rtj else None
    lb = lbj.get() if lbj else None
    ns = nsj.get() if nsj else None
    for b in sts + [b for b in (rtj, lbj, nsj) if b]:
        if b.e: errors.append(b.e)
    st = [x for x in st if x]
    concrete, weak, bodyw, nst, nrt, harness, lbfail, lbs = [], [], [], 0, 0, [], [], []
    def absorb_st(s):
        for p, m, src, st_ in s['bad']:
            if p == ['HARNESS']: harness.append(m); continue
            if PID not in p: continue
            x = dict(kind='expansion', features=list(s['feats']), what=m, input=src, properties=p)
            if not WEAK.match(m): concrete.append(x)
            elif PID in BODIES and BODY.match(m): bodyw.append((x, st_))
            else: weak.append(x)
    def absorb_rt(r):
        for p, i, m in attribute(r, st[0] if st else None):
            if PID in p:
                concrete.append(dict(kind='run-time history', what=m, case=i, properties=p, source=open(os.path.join(r['dir'], 'crate', 'src', i + '.rs')).read()))
    def absorb_lb(r, tag):
        lbs.append(r)
        mine = [f for f in r['failures'] if PID in f['labels'].split()]
        for m, k, w in r['open']: undecided.append(dict(contract='generated ' + k, features=[], why=w))
        for f in mine: lbfail.append(dict(f, contract='generated ' + f['function'], crate='generated code', features=[], spec=f['expected'], impl=f['got'], struct=f['src']))
        ks = []
        for k in [f['member'] for f in sorted(mine, key=lambda f: len(f['src']))] + ([k for k, _ in r['broken']] if tag == 'f' else []):     # a struct made up to show a difference may be one that cannot compile
            if k not in ks: ks.append(k)
        if ks and PID in RUNTIME and not concrete:
            try: x = replay_members(j('rp' + tag), j('rt', 'target'), r, ks[:12], tag)
            except Exception as e: errors.append('replay of members of the family: %s' % str(e)[:500]); x = None
            if x: absorb_rt(x); return len(x['cases'])
        return 0
    for s in st: absorb_st(s); nst += s['n']
    for p, k, f, m in ns[0] if ns else []:
        if PID in p: concrete.append(dict(kind='no_std build', features=[f] if f else [], what='module %s of a no_std crate does not compile: %s' % (k, m), properties=p, source=nostd.MODS[k][2]))
    if rt: absorb_rt(rt); nrt += len(rt['cases'])
    if lb: nrt += absorb_lb(lb, 'f')
    # ---- something is open: search deeper for a failing input
    deeper = False
    if (failures or weak or bodyf or bodyw or rooted or undecided) and not concrete:
        deeper = True
        jobs2 = []
        def more_st(s):
            bad, n = run_structural(s['driver'], inputs(SEED + 7919, 9000, True), SEED + 7919, s['feats'], 5)
            return dict(s, bad=bad, n=n)
        if st: jobs2.append(('st', Bg(more_st, st[0])))
        def more_rt():
            import runtime as R
            os.makedirs(j('rt2'), exist_ok=True)
            cs, bad, done = R.suite(j('rt2', 'crate'), j('rt', 'target') if rt else j('rt2', 'target'), SEED + 7919, 160)
            return dict(cases={c.id: c for c in cs}, bad=bad, done=done, dir=j('rt2'))
        if PID in RUNTIME: jobs2.append(('rt', Bg(more_rt)))
        for k, b in jobs2:
            r = b.get()
            if r is None: errors.append(b.e); continue
            if k == 'st': absorb_st(r); nst += r['n']
            else: absorb_rt(r); nrt += len(r['cases'])
    # ---- the differences inside the bodies of generated functions: verify the bodies of the structs that show them
    directed = {}
    if bodyw and not concrete and lb:
        import layerb
        pick, seen = [], {}
        for x, s in sorted(bodyw, key=lambda y: len(y[0]['input'])):
            kind = ' '.join(x['what'].split()[:2])
            if seen.get(kind, 0) >= 25: continue
            try: pick.append((kind, layerb.directed(s))); seen[kind] = seen.get(kind, 0) + 1
            except Exception: continue
        try:
            r = generated(j('lb2'), db, lambda: [c for _, c in pick], 8)
            nrt += absorb_lb(r, 'd')
            directed = {k: 0 for k in seen}
            for i in r['proved_members']: directed[pick[i][0]] += 1
        except Exception as e: errors.append(str(e)[:500])
    settled = bool(lb) and not any(r['failures'] or r['open'] for r in lbs) and not lb['broken'] and (not bodyw or directed and all(directed.values()))
    if PID == 'C18' and not failures and not concrete:
        # another way of writing what is generated: where its paths start is decided by the contracts and by check_root on the expansions
        for x in weak: rooted.append(dict(contract='expansion', features=x['features'], why=x['what']))
        weak = []
    undecided += rooted
    if settled:
        for x in bodyf: undecided.append(dict(contract=x['contract'], features=x['features'], why='the body of a generated function is written differently from the contract, %s; every generated function of the family behaves as its contract says' % x['component']))
    else: failures += bodyf; weak += [x for x, _ in bodyw]
    failures += lbfail
    # ---- verdict
    known = [k for k in known_findings() if k.get('property') == PID and k.get('status') == 'known']
    def listed(x): return next((k for k in known if k['match'] in json.dumps(x)), None)
    shown = set()
    def drop(xs):
        o = []
        for x in xs:
            k = listed(x)
            if k is None: o.append(x)
            else: shown.add(k['what'])
        return o
    concrete, weak, failures = drop(concrete), drop(weak), drop(failures)
    for w in sorted(shown): print('KNOWN-FINDING: property=%s %s' % (PID, w))
    dead = not proofs and not nst and not nrt
    violated = bool(concrete or weak or failures)
    nobl = sum(x['obligations'] for x in proofs); ndis = sum(x['discharged'] for x in proofs)
    fut = sorted({x['contract'] for x in proofs if x['status'] == 'ok'})
    import importlib.metadata as im
    cov = dict(obligations=nobl, discharged=ndis, checker_cmd=CHECKER % 'in python3-vt' + ' ' + ' '.join(keys), trusted_base=TRUSTED,
               functions_under_contract=[dict(function=x['contract'], crate=x['crate'], features=x['features'], status=x['status'], obligations=x['obligations'], discharged=x['discharged'],
                                              paths=x['paths'], solver_queries=x['queries'], solver_s=x['solver_s'], contracts_used=x['used'], note=x['note']) for x in proofs],
               functions_proved=len(fut), solver_s=round(sum(x['solver_s'] for x in proofs), 2), back_end='Z3',
               generated_code=dict(note='contracts on the functions the macro generates, for a finite family of structs (bounded in the structs, not in builder states, argument values or outcomes of user code)',
                                   structs=sum(r['members'] for r in lbs), functions=sum(r['functions'] for r in lbs), obligations=sum(r['obligations'] for r in lbs), discharged=sum(r['discharged'] for r in lbs),
                                   solver_s=round(sum(r['solver_s'] for r in lbs), 2), solver_queries=sum(r['queries'] for r in lbs), open=sum(len(r['open']) for r in lbs), not_compiled=sum(len(r['broken']) for r in lbs)) if lbs else None,
               undecided=undecided, obligations_failed_for_this_property=len(failures),
               bounded=dict(note='bounded searches on the real code: corroboration and replay, not proof', expansions_checked=nst, builders_compiled_and_run=nrt, deeper_search=deeper, no_std_modules_compiled=ns[1] if ns else 0))
    assumed = sorted({a for x in proofs + lbs for a in x['assumed']})
    whole = set()
    if deps:
        d = deps.get()
        if d is None: cov['dependency_contracts'] = dict(note='not run: %s' % str(deps.e)[-300:])
        else:
            ok = [x for x in d['results'] if x['status'] == 'ok']
            whole = {l for l in {x['covers'] for x in ok if x['covers']} if all(x['status'] == 'ok' for x in d['results'] if x['covers'] == l) and (not l.startswith('<') or any(x['full'] for x in d['results'] if x['covers'] == l))}
            cov['dependency_contracts'] = dict(note="contracts of mirv/lib.py proved on the dependency's own MIR (quote, darling_core, syn as cargo resolves them; Option and Result from the installed rust-src); they decide no verdict",
                                               functions=len({(x['contract']) for x in ok}), obligations=sum(x['obligations'] for x in d['results']), discharged=sum(x['discharged'] for x in d['results']),
                                               solver_s=round(sum(x.get('solver_s', 0) for x in ok), 2), not_discharged=[x['contract'] for x in d['results'] if x['status'] != 'ok'], errors=d['errors'],
                                               proved=sorted({x['crate'] + ': ' + x['contract'] for x in ok}))
    ev = dict(property=PID, tier=TIER, seed=SEED, level='proof', coverage=cov, assumptions=TRUSTED[3:] + [('library contract, proved on the dependency\'s own MIR: ' if a in whole else 'assumed library contract: ') + a for a in assumed], wall_s=round(time.time() - T0, 2),
              violations=len(concrete) + len(weak) + len(failures))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', PID + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for e in errors + ['input generator: ' + h for h in harness[:3]]: print('note:', e, file=sys.stderr)
    if lbs: print('%s: generated code: %d structs, %d functions, %d/%d obligations discharged' % (PID, cov['generated_code']['structs'], cov['generated_code']['functions'], cov['generated_code']['discharged'], cov['generated_code']['obligations']))
    print('%s: %d contracts on %d functions, %d/%d obligations discharged, %.1f s solver; %d expansions and %d builders run; %d undecided; %.1f s' % (
        PID, len(keys), len({x['contract'] for x in proofs}), ndis, nobl, cov['solver_s'], nst, nrt, len(undecided), time.time() - T0))
    for u in undecided[:10]: print('undecided by proof (bounded search stands in): %s: %s' % (u['contract'], u['why'][:300]))
    if violated:
        rp = os.path.join(HERE, 'evidence', 'replay-%s.json' % PID)
        order = concrete[:10] + weak[:5]
        with open(rp, 'w') as f:
            json.dump(dict(property=PID, failing_inputs=order, failed_obligations=failures[:12],
                           how='failing_inputs: `input` is expanded by driver/ (real builder_for_struct); `source` is compiled and run by concrete/runtime.py against the real macro; failed_obligations: verifier output'), f, indent=1)
        for x in failures[:4]: print('failed obligation: %s, %s, on path [%s]%s' % (x['contract'], x['component'], x['path'][:300], ': %s, expected %s' % (x['impl'][:200], x['spec'][:200]) if 'struct' in x else ''))
        for x in order[:3]: print('failing input: %s\n%s' % (x['what'][:400], x.get('input', x.get('case', ''))[:600]))
        print('VIOLATION property=%s replay=%s%s' % (PID, rp, '' if concrete else ' no-failing-input-found'))
        return 1
    if dead:
        print('no answer: nothing could be decided'); return 2
    if not nobl and not undecided: print('no obligations'); return 2
    return 0

if __name__ == '__main__': sys.exit(main())
