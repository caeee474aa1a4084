"""Prove contracts on the code of /repo as it is now.
usage: prove.py SCRATCH OUT.json CRATE FEATURES(,|-) [contract ...]"""
import sys, os, re, json, multiprocessing, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import program, verify, registry

# relations between strings, and positions and lengths, that the verifier leaves uninterpreted: an obligation that
# fails only under such a condition is open, not refuted
OPAQUE = re.compile(r"\('(eqs|eqi|streqs|starts_with|ends_with|contains|strlen|strfn|index|bin|min|max|join)', ")
CTX = None
def one(key):
    c = registry.ALL[key]
    R = verify.verify(CTX, c, registry.crate_contracts(c.crate))
    def f(x):
        return dict(labels=sorted(x['labels'] if x['labels'] is not None else registry.all_labels(c)), component=x['component'], body=bool(x.get('body')), roots=bool(x.get('roots')), why=x.get('why', ''), opaque=bool(OPAQUE.search(repr(x['pc']) + ' ' + str(x.get('got', '')))) or x.get('why', '').startswith('solver answered'),
                    path=verify.show_g(verify.lits_of(x['pc'], {}))[:3000], spec=str(x.get('spec', ''))[:6000], impl=str(x.get('impl', ''))[:6000])
    return dict(contract=key, status=R.status, note=R.note, obligations=R.obligations, discharged=R.discharged, paths=R.paths, solver_s=round(R.solver_s, 3), queries=R.queries, wall_s=round(R.wall, 2),
                assumed=sorted(map(str, R.assumed)), used=sorted(map(str, R.used)), failures=[f(x) for x in R.failures[:40]])

def main():
    global CTX
    scratch, out, crate, feats = sys.argv[1:5]
    keys = sys.argv[5:]
    os.makedirs(scratch, exist_ok=True)
    feats = [f for f in feats.split(',') if f not in ('-', '')]
    t0 = time.time()
    try:
        mir = program.emit_mir(crate, os.path.join(scratch, crate + '.mir'), features=feats, target=os.path.join(scratch, 'target'))
        tb = time.time() - t0
        CTX = program.load_ctx(mir, crate)
        CTX.features = set(feats)
    except Exception as e:
        json.dump(dict(error='%s: %s' % (type(e).__name__, e), results=[], build_s=time.time() - t0), open(out, 'w')); return
    keys = sorted(keys, key=lambda k: -registry.ALL[k].cost)
    with multiprocessing.get_context('fork').Pool(min(8, len(keys))) as p:
        rs = p.map(one, keys, chunksize=1)
    json.dump(dict(results=rs, build_s=round(tb, 2), wall_s=round(time.time() - t0, 2), functions_in_mir=len(CTX.fns) if hasattr(CTX, 'fns') else 0), open(out, 'w'), indent=1)
main()
