"""Development: what every layer says about a (patched) copy of the repository, and the verdict per property.
usage: VERIF_REPO=dir allprops.py"""
import os, sys, json, shutil, tempfile
sys.argv = [sys.argv[0], 'C01'] + sys.argv[1:]
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H]
import check
import registry
scratch = tempfile.mkdtemp(dir='/tmp/w')
j = lambda *a: os.path.join(scratch, *a)
try:
    core = [k for k in registry.ALL if registry.ALL[k].crate == registry.CORE]; lib = [k for k in registry.ALL if registry.ALL[k].crate == registry.LIB]
    db, db0 = check.Bg(check.build_driver, j('st'), ('lib_has_std',)), check.Bg(check.build_driver, j('st0'), ())
    jobs = [check.Bg(check.prove, j('p1'), registry.CORE, ('lib_has_std',), core), check.Bg(check.prove, j('p0'), registry.CORE, (), ['<Builder as ToTokens>::to_tokens', 'Options::as_builder']), check.Bg(check.prove, j('pl'), registry.LIB, ('std',), lib)]
    st = check.Bg(check.structural, db, 1200, ('lib_has_std',), 4)
    st0 = check.Bg(check.structural, db0, 0, (), 3)
    rt = check.Bg(check.runtime, j('rt'), 60)
    lbj = check.Bg(check.generated, j('lb'), db, check.family, 4)
    import nostd
    nsj = check.Bg(nostd.run, j('ns'))
    P = {}
    def hit(p, k, m): P.setdefault(p, {}).setdefault(k, []).append(m)
    for b in jobs:
        r = b.get()
        if not r or r.get('error'): print('ERROR', b.e or r['error'][:500]); continue
        for x in r['results']:
            if x['status'] == 'failed':
                for y in x['failures']:
                    for l in y['labels']: hit(l, 'open' if y.get('opaque') else 'rooted' if l == 'C18' and y.get('roots') else 'proofbody' if y.get('body') and l in check.BODIES else 'proof', '%s.%s %s' % (x['contract'], y['component'], y['why']))
            elif x['status'] != 'ok': print('UNDECIDED', x['contract'], x['status'], x['note'][:300])
    bodyw = []
    for s in (st, st0):
        r = s.get()
        if s.e: print('ERROR', s.e); continue
        for p, m, src, s_ in r['bad']:
            for q in p:
                k = 'expansion' if not check.WEAK.match(m) else 'weakbody' if q in check.BODIES and check.BODY.match(m) else 'weak'
                if k == 'weakbody': bodyw.append((q, m, src, s_))
                hit(q, k, m)
    r = rt.get()
    def absrt(r, kind='runtime'):
        for p, i, m in check.attribute(r, st.get()):
            for q in p: hit(q, kind, i + ' ' + m)
    if rt.e: print('ERROR', rt.e)
    else: absrt(r)
    ns = nsj.get()
    if nsj.e: print('ERROR', nsj.e)
    for p, k, f, m in ns[0] if ns else []:
        for q in p: hit(q, 'nostd', '%s [%s] %s' % (k, f, m))
    lb = lbj.get()
    if lbj.e: print('ERROR', lbj.e)
    lbs = [lb] if lb else []
    import layerb
    directed = {}
    if bodyw and lb:
        pick, seen = [], {}
        for q, m, src, s in sorted(bodyw, key=lambda y: len(y[2])):
            kind = ' '.join(m.split()[:2])
            if (seen.get(kind, 0)) >= 25: continue
            pick.append((kind, layerb.directed(s))); seen[kind] = seen.get(kind, 0) + 1
        try:
            d = check.generated(j('lb2'), db, lambda: [c for _, c in pick], 8); lbs.append(d)
            directed = {k: 0 for k in seen}
            for i in d['proved_members']: directed[pick[i][0]] += 1
            print('directed', directed)
        except Exception as e: print('ERROR', e)
    for n, r in enumerate(lbs):
        for m, k, w in r['open']: print('LB-OPEN', k, w[:200]); break
        for m, w in r['broken'][:1]: print('LB-BROKEN', w[:200])
        for f in r['failures']:
            for l in f['labels'].split(): hit(l, 'lb', '%s.%s: %s, expected %s' % (f['function'], f['component'], f['got'][:60], f['expected'][:60]))
        ks = []
        for k in [f['member'] for f in sorted(r['failures'], key=lambda f: len(f['src']))] + ([k for k, _ in r['broken']] if n == 0 else []):
            if k not in ks: ks.append(k)
        if ks:
            try:
                x = check.replay_members(j('rp%d' % n), j('rt', 'target'), r, ks[:12], str(n))
                if x: absrt(x, 'replay')
            except Exception as e: print('ERROR replay', e)
    settled = bool(lb) and not any(r['failures'] or r['open'] for r in lbs) and not lb['broken'] and (not bodyw or directed and all(directed.values()))
    if settled:
        for p in list(P):
            for k in ('proofbody', 'weakbody'):
                if P[p].pop(k, None): print('settled', p, k)
            if not P[p]: del P[p]
    if 'C18' in P and not set(P['C18']) & {'expansion', 'runtime', 'proof'}:
        for k in ('rooted', 'weak'):
            if P['C18'].pop(k, None): print('settled C18', k)
        if not P['C18']: del P['C18']
    for p in sorted(P):
        strong = set(P[p]) & {'expansion', 'runtime', 'replay', 'nostd'}
        print(p, 'STRONG' if strong else 'OPEN' if set(P[p]) == {'open'} else 'WEAK', {k: len(v) for k, v in P[p].items()}, '|', ' || '.join((k + ': ' + v[0][:130]) for k, v in P[p].items()))
    if not P: print('QUIET')
finally: shutil.rmtree(scratch)
