"""Canonical forms of guarded cases: a multi-valued decision tree over the atoms of the guards, in a
fixed order, so that two case lists that mean the same function of the atoms are the same value."""
from values import Cases

def enum_dom(ctx, atom):
    if atom[0] == 'disc': return ctx.variants(atom[2])
    if atom[0] in ('str', 'int'): return None
    return (False, True)

OTHER = ('other',)

def canon(ctx, pc, cases):
    """cases: tuple of (guard, body) -> tuple of (guard, body) in canonical form, restricted to pc"""
    cs = []
    for g, b in cases:
        ng, ok = [], True
        for (a, op, x) in g:
            cur = pc.get(a)
            if cur is not None:
                if cur[0] == '=':
                    if (op == '=' and x != cur[1]) or (op == '!=' and cur[1] in x): ok = False; break
                    continue
                if op == '=' and x in cur[1]: ok = False; break
            ng.append((a, op, x))
        if ok: cs.append((tuple(ng), b))
    if not cs: return ()
    atoms = sorted({l[0] for g, _ in cs for l in g}, key=repr)
    tree = build(ctx, pc, cs, atoms)
    out = []
    flatten(tree, (), out)
    return tuple(out)

def build(ctx, pc, cs, atoms):
    b0 = cs[0][1]
    if all(b == b0 for _, b in cs): return ('leaf', b0)
    # first atom that still occurs
    for i, a in enumerate(atoms):
        if any(l[0] == a for g, _ in cs for l in g): break
    else:
        return ('leaf', cs[0][1]) if len({b for _, b in cs}) == 1 else ('amb', tuple(b for _, b in cs))
    dom = enum_dom(ctx, a)
    cur = pc.get(a)
    if dom is None:
        vals = sorted({v for g, _ in cs for l in g if l[0] == a for v in ([l[2]] if l[1] == '=' else l[2])}, key=repr)
        dom = list(vals) + [OTHER]
    branches = []
    for v in dom:
        if cur is not None and cur[0] == '!=' and v in cur[1]: continue
        sub = []
        for g, b in cs:
            ok, ng = True, []
            for l in g:
                if l[0] != a: ng.append(l); continue
                if l[1] == '=': ok = (v == l[2])
                else: ok = v not in l[2]
                if not ok: break
            if ok: sub.append((tuple(ng), b))
        if sub: branches.append((v, build(ctx, pc, sub, atoms[i+1:])))
    if not branches: return ('amb', ())
    t0 = branches[0][1]
    if all(t == t0 for _, t in branches): return t0
    return ('node', a, tuple(branches), tuple(dom))

def flatten(t, g, out):
    if t[0] == 'leaf': out.append((g, t[1])); return
    if t[0] == 'amb':
        out.append((g + ((('ambiguous',), '=', True),), t[1])); return
    _, a, br, dom = t
    # group equal subtrees
    groups = []
    for v, s in br:
        for x in groups:
            if x[1] == s: x[0].append(v); break
        else: groups.append(([v], s))
    for vs, s in groups:
        if len(vs) == 1 and vs[0] != OTHER: l = (a, '=', vs[0])
        else:
            rest = frozenset(d for d in dom if d not in vs and d != OTHER)
            if OTHER in dom and OTHER not in vs:
                # several concrete values of an open domain: one case each
                for v in vs: flatten(s, g + ((a, '=', v),), out)
                continue
            l = (a, '!=', rest)
        flatten(s, g + (l,), out)

def cases_of(v): return v.cs if isinstance(v, Cases) else (((), v),)
