"""More assumed library contracts: what ordinary edits of the crate are likely to call."""
import re, sys
from values import *
from mirparse import Unsupported, base_ty, ty_args, norm_ty
from ex import Fork, Diverge, add_lit, lits_of, State
from canon import canon
import lib
from lib import on, opt, after, boolean, itcases, eqv, GONE, catstr, endof, TABLE, _iter, default, SPAN

def conc(s): return all(isinstance(p, str) for p in s.parts)
def text(s): return ''.join(s.parts)
def pat(L, ex, st, v):
    """a pattern argument: a known piece of text"""
    w = L.deref(ex, st, v)
    if isinstance(w, tuple) and w and w[0] == 'chr': return w[1]
    if isinstance(w, Str) and conc(w): return text(w)
    if isinstance(w, Str) or isinstance(w, Sym) and base_ty(w.ty) in ('String', 'str'): return L.to_str(ex, st, w)
    raise Unsupported('string pattern %s' % show(w))

# ---- booleans
@on('bool::then', '<impl bool>::then', 'bool::then_some', '<impl bool>::then_some')
def _then(L, ex, st, ci, v):
    if not ex.truth(st, v[0]): return NONE()
    if ci['m'] == 'then_some': return SOME(v[1])
    return after(ex, ex.call_value(st, v[1], []), lambda s, r: SOME(r))
@on('<Not>::not')
def _not(L, ex, st, ci, v):
    return not ex.truth(st, L.deref(ex, st, v[0]))
@on('<BitAnd>::bitand')
def _band(L, ex, st, ci, v):
    a = ex.truth(st, L.deref(ex, st, v[0])); b = ex.truth(st, L.deref(ex, st, v[1]))
    return a and b
@on('<BitXor>::bitxor')
def _bxor(L, ex, st, ci, v): return ex.truth(st, L.deref(ex, st, v[0])) != ex.truth(st, L.deref(ex, st, v[1]))
@on('<BitOrAssign>::bitor_assign', '<BitAndAssign>::bitand_assign')
def _boa(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[0]); a = ex.truth(st, L.get(ex, st, r)); b = ex.truth(st, v[1])
    L.set(ex, st, r, (a or b) if 'bitor' in ci['m'] else (a and b)); return UNIT

# ---- options and results
@on('Option::inspect', 'Result::inspect')
def _insp(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    if k in ('None', 'Err'): return v[0]
    return after(ex, ex.call_value(st, v[1], [x]), lambda s, r: v[0])
@on('Result::is_ok_and', 'Result::is_err_and')
def _isok(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    if (k == 'Ok') != (ci['m'] == 'is_ok_and'): return False
    return ex.call_value(st, v[1], [x])
@on('Result::or_else')
def _ror(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    return OK(x) if k == 'Ok' else ex.call_value(st, v[1], [x])
@on('Result::or')
def _ror2(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    return OK(x) if k == 'Ok' else v[1]
@on('Result::and')
def _rand(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    return v[1] if k == 'Ok' else ERR(x)
@on('Option::transpose')
def _transp(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    if k == 'None': return OK(NONE())
    k2, y = opt(ex, st, x)
    return OK(SOME(y)) if k2 == 'Ok' else ERR(y)
@on('Result::transpose')
def _rtransp(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    if k == 'Err': return SOME(ERR(x))
    k2, y = opt(ex, st, x)
    return SOME(OK(y)) if k2 == 'Some' else NONE()
@on('Option::get_or_insert_with', 'Option::get_or_insert')
def _goi(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[0])
    w = L.get(ex, st, r)
    inner = Ref(r.cell, r.path + (('f', 0, ty_args(w.ty)[0] if isinstance(w, Sym) and ty_args(w.ty) else '?', 'Some'),))
    if ex.variant(st, r) == 'Some': return inner
    if ci['m'] == 'get_or_insert': L.set(ex, st, r, SOME(v[1])); return inner
    outs = []
    for s, k, x in ex.call_value(st, v[1], []):
        if k == 'ret': L.set(ex, s, r, SOME(x)); outs.append((s, k, inner))
        else: outs.append((s, k, x))
    return outs
@on('Option::iter', 'Option::into_iter', 'Result::into_iter', 'Result::iter')
def _oiter(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    return Iter((('e', x),) if k in ('Some', 'Ok') else ())
@on('Option::unzip')
def _unzip(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    if k == 'None': return tup(NONE(), NONE())
    w = ex.resolve(st, x)
    return tup(SOME(w.fs[0]), SOME(w.fs[1]))
@on('Option::expect_none', 'Result::unwrap_err', 'Result::expect_err')
def _uerr(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    if k == 'Err': return x
    raise Diverge(ci['m'])

# ---- iterators: construction
@on('once', 'iter::once', 'std::iter::once', 'core::iter::once')
def _once(L, ex, st, ci, v): return Iter((('e', v[0]),))
@on('std::iter::empty', 'core::iter::empty', 'iter::empty', 'empty')
def _itempty(L, ex, st, ci, v):
    if v: return NotImplemented
    return Iter(())
# ---- iterators: adapters and consumers
def known(segs): return all(s[0] == 'e' for s in segs)
def elty(segs):
    return segs[0][2] if segs and segs[0][0] == 'all' else '?'
def segs_of(L, ex, st, v):
    w = L.deref(ex, st, v)
    if isinstance(w, Adt) and ex.ctx.method(w.n, 'next'):
        return itcases(L, ex, st, w, lambda s, el: [(s, (('e', ex.view(s, el)),))]).segs
    return w.segs if isinstance(w, (Iter, Seq)) else L.segs(ex, st, w)
@on('<Iterator>::for_each', 'for_each')
def _foreach(L, ex, st, ci, v):
    cur, out = [st], []
    segs = segs_of(L, ex, st, v[0])
    for seg in segs:
        nxt = []
        for c in cur:
            if seg[0] == 'e':
                for s, k, r in ex.call_value(c, v[1], [seg[1]]): (nxt if k == 'ret' else out).append(s if k == 'ret' else (s, k, r))
            else:
                posts, e, r = ex.fold_call(c, seg, lambda s, el: ex.call_value(s, v[1], [el]), 'for_each')
                nxt += posts; out += r
        cur = nxt
    return [(c, 'ret', UNIT) for c in cur] + out
@on('<Iterator>::try_for_each', 'try_for_each')
def _tryforeach(L, ex, st, ci, v):
    segs = segs_of(L, ex, st, v[0])
    if not known(segs): raise Unsupported('try_for_each over unknown elements')
    return NotImplemented
@on('<Iterator>::partition', 'partition')
def _part(L, ex, st, ci, v):
    it = Iter(segs_of(L, ex, st, v[0]))
    def run(want):
        def go(s, el): return [(s2, (('e', ex.view(s2, el)),) if b == want else ()) for s2, b in L.callf(ex, v[1], boolean(ex))(s, el)]
        return go
    return tup(*(Seq(itcases(L, ex, st, it, run(w)).segs) for w in (True, False)))
@on('<Iterator>::enumerate', 'enumerate')
def _enum(L, ex, st, ci, v):
    segs = segs_of(L, ex, st, v[0]); out = []; exact = True
    for i, s in enumerate(segs):
        if s[0] == 'e': out.append(('e', tup(i if exact else Sym(('index', Seq(segs), i), 'usize'), s[1])))
        else:
            exact = False
            ix = Sym(('index', s[1], ('elem', s[1])), 'usize')
            if s[0] == 'all': out.append(('map', s[1], (((), (('e', tup(ix, Sym(('elem', s[1]), s[2]))),)),)))
            elif s[0] == 'map': out.append(('map', s[1], tuple((g, tuple(('e', tup(ix, x[1])) for x in b)) for g, b in s[2])))
            else: raise Unsupported('enumerate')
    return Iter(tuple(out))
@on('<Iterator>::zip', 'zip')
def _itzip(L, ex, st, ci, v):
    a, b = segs_of(L, ex, st, v[0]), segs_of(L, ex, st, _iter(L, ex, st, ci, [v[1]]))
    if known(a) and known(b): return Iter(tuple(('e', tup(x[1], y[1])) for x, y in zip(a, b)))
    if len(a) == len(b) == 1 and a[0][1] == b[0][1] and a[0][0] in ('all', 'map') and b[0][0] in ('all', 'map'):
        # two lists indexed by the same list, element for element
        one = lambda s: ((((), (('e', Sym(('elem', s[1]), s[2])),)),) if s[0] == 'all' else s[2])
        cs = []
        for g, x in one(a[0]):
            for h, y in one(b[0]):
                if len(x) != 1 or len(y) != 1: raise Unsupported('zip of filtered lists')
                pc = {}
                if all(add_lit(ex.ctx, pc, l) for l in g + h): cs.append((lits_of(pc, {}), (('e', tup(x[0][1], y[0][1])),)))
        return Iter((('map', a[0][1], canon(ex.ctx, st.pc, tuple(cs))),))
    raise Unsupported('zip')
@on('<Iterator>::flat_map', 'flat_map', '<Iterator>::flatten')
def _fmap(L, ex, st, ci, v):
    def conv(s, r):
        w = L.deref(ex, s, r)
        if isinstance(w, Adt) and w.n in ('Option', 'Result') or isinstance(w, Sym) and base_ty(w.ty) in ('Option', 'Result'):
            k, x = opt(ex, s, w)
            return (('e', ex.view(s, x)),) if k in ('Some', 'Ok') else ()
        segs = w.segs if isinstance(w, (Iter, Seq)) else L.segs(ex, s, w)
        if not known(segs): raise Unsupported('flat_map into unknown lists')
        return tuple(('e', ex.view(s, x[1])) for x in segs)
    if ci['m'] == 'flatten':
        it = Iter(segs_of(L, ex, st, v[0]))
        def run(s, el):
            done, work = [], [s]
            while work:
                s0 = work.pop()
                try: done.append((s0, conv(s0, el)))
                except Fork as fk:
                    for g in fk.alts:
                        s2 = s0.fork()
                        if all(add_lit(ex.ctx, s2.pc, l) for l in g): work.append(s2)
            return done
        return itcases(L, ex, st, it, run)
    return itcases(L, ex, st, v[0], L.callf(ex, v[1], conv))
@on('<Iterator>::skip', '<Iterator>::take', '<Iterator>::step_by', 'skip')
def _skip(L, ex, st, ci, v):
    segs = segs_of(L, ex, st, v[0]); n = ex.resolve(st, v[1])
    if known(segs) and isinstance(n, int):
        return Iter(segs[n:] if ci['m'] == 'skip' else segs[:n] if ci['m'] == 'take' else segs[::n])
    if isinstance(n, int) and n == 0 and ci['m'] == 'skip': return Iter(segs)
    return Iter((('all', (ci['m'], n, Seq(segs)), elty(segs)),))
@on('<Iterator>::skip_while', '<Iterator>::take_while', '<Iterator>::map_while')
def _skw(L, ex, st, ci, v):
    segs = segs_of(L, ex, st, v[0])
    if any(s[0] == 'map' for s in segs) or ci['m'] == 'map_while': raise Unsupported(ci['m'])
    cs = [(seg, tuple((g, r) for g, r, _ in outs)) for seg, outs in L.iter_outcomes(ex, st, Iter(segs), L.callf(ex, v[1], boolean(ex)))]
    return Iter((('all', (ci['m'], Seq(segs), tuple(cs)), elty(segs)),))
@on('<Iterator>::count', 'count')
def _count(L, ex, st, ci, v):
    segs = segs_of(L, ex, st, v[0])
    return L.seq_len(ex, st, Seq(segs))
@on('<Iterator>::last', '<Iterator>::nth', 'slice::get', 'Vec::get', 'get', 'Punctuated::get')
def _nth(L, ex, st, ci, v):
    if ci['m'] == 'last' and not (ci['trait'] and base_ty(ci['trait']) == 'Iterator'): return NotImplemented
    segs = segs_of(L, ex, st, v[0])
    if ci['m'] == 'last': return endof(L, ex, st, Seq(segs), -1)
    n = ex.resolve(st, v[1])
    if isinstance(n, int) and len(segs) > n and known(segs[:n+1]): return SOME(segs[n][1])
    if isinstance(n, int) and known(segs): return NONE()
    if n == 0: return endof(L, ex, st, Seq(segs), 0)
    raise Unsupported('nth')
@on('<Iterator>::size_hint', '<ExactSizeIterator>::len')
def _esl(L, ex, st, ci, v):
    if ci['m'] == 'size_hint': return NotImplemented
    return _count(L, ex, st, ci, v)
@on('contains', 'slice::contains', 'Vec::contains')
def _contains(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0])
    if isinstance(w, Str) or isinstance(w, Sym) and base_ty(w.ty) in ('String', 'str'): return strpred(L, ex, st, 'contains', w, v[1])
    x = L.deref(ex, st, v[1])
    ts = []
    for s in L.segs(ex, st, w):
        if s[0] == 'e':
            b = eqv(L, ex, st, L.deref(ex, st, s[1]), x)
            if isinstance(b, list): raise Unsupported('contains')
            if b is True: return True
            if b is not False: ts.append(b.t)
        else: ts.append(('contains', Seq((s,)), ex.view(st, x)))
    if not ts: return False
    t = ts[0]
    for y in ts[1:]: t = ('or', t, y)
    return Sym(t, 'bool')
@on('<Ord>::min', '<Ord>::max', 'min', 'max')
def _minmax(L, ex, st, ci, v):
    a, b = ex.resolve(st, v[0]), ex.resolve(st, v[1])
    if isinstance(a, int) and isinstance(b, int): return (min if ci['m'] == 'min' else max)(a, b)
    t = lambda x: x.t if isinstance(x, Sym) else x
    return Sym((ci['m'],) + tuple(sorted((t(a), t(b)), key=repr)), 'usize')
# ---- vectors
@on('Vec::retain')
def _retain(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[0])
    segs = L.segs(ex, st, L.get(ex, st, r))
    def run(s, el): return [(s2, (('e', ex.view(s2, el)),) if b else ()) for s2, b in L.callf(ex, v[1], boolean(ex))(s, el)]
    L.set(ex, st, r, Seq(itcases(L, ex, st, Iter(segs), run).segs)); return UNIT
@on('Vec::dedup', 'Vec::dedup_by_key', 'Vec::dedup_by', 'sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'slice::sort', 'slice::sort_by', 'slice::sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key')
def _reorder(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[0]); segs = L.segs(ex, st, L.get(ex, st, r))
    if len(segs) <= 1 and known(segs): return UNIT
    L.set(ex, st, r, Seq((('all', (ci['m'], Seq(segs)) + tuple(ex.view(st, x) for x in v[1:]), elty(segs)),))); return UNIT
@on('Vec::pop', 'Punctuated::pop')
def _vpop(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[0]); segs = L.segs(ex, st, L.get(ex, st, r))
    if ci['ty'] and base_ty(ci['ty']) == 'Punctuated': return NotImplemented
    if not segs: return NONE()
    if segs[-1][0] != 'e': raise Unsupported('pop')
    L.set(ex, st, r, Seq(segs[:-1])); return SOME(segs[-1][1])
@on('Vec::remove', 'Vec::swap_remove')
def _vremove(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[0]); segs = L.segs(ex, st, L.get(ex, st, r)); n = ex.resolve(st, v[1])
    if not (isinstance(n, int) and n < len(segs) and known(segs[:n+1])): raise Unsupported('Vec::remove')
    L.set(ex, st, r, Seq(segs[:n] + segs[n+1:])); return segs[n][1]
@on('split_first', 'slice::split_first')
def _splitfirst(L, ex, st, ci, v):
    segs = L.segs(ex, st, v[0])
    if not segs: return NONE()
    if segs[0][0] != 'e': raise Unsupported('split_first')
    return SOME(tup(segs[0][1], Seq(segs[1:])))
@on('join', 'slice::join', 'concat', 'slice::concat')
def _join(L, ex, st, ci, v):
    segs = L.segs(ex, st, v[0])
    sep = L.to_str(ex, st, v[1]) if len(v) > 1 else lit('')
    if known(segs):
        out = []
        for i, s in enumerate(segs):
            if i: out.append(sep)
            out.append(L.to_str(ex, st, s[1]))
        return catstr(*out)
    return Str((('join', Seq(segs), sep),))
# ---- strings
def strpred(L, ex, st, m, a, b):
    s = L.to_str(ex, st, a); p = pat(L, ex, st, b)
    if isinstance(p, str):
        if conc(s): return {'starts_with': text(s).startswith, 'ends_with': text(s).endswith, 'contains': text(s).__contains__}[m](p)
        if not p: return True
        if m == 'starts_with' and isinstance(s.parts[0], str):
            if s.parts[0].startswith(p): return True
            if not p.startswith(s.parts[0]): return False
        if m == 'ends_with' and isinstance(s.parts[-1], str):
            if s.parts[-1].endswith(p): return True
            if not s.parts[-1].endswith(p[-len(s.parts[-1]):]): return False
        if m == 'contains' and any(isinstance(x, str) and p in x for x in s.parts): return True
        if m == 'starts_with' and isinstance(s.parts[0], tuple) and p == 'r#':
            if s.parts[0][0] == 'display': return Sym(('raw', s.parts[0][1]), 'bool')
            if s.parts[0][0] == 'unraw': return False
        p = lit(p)
    return Sym((m, s, p), 'bool')
@on('starts_with', 'ends_with', 'str::starts_with', 'str::ends_with', 'str::contains')
def _sw(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0])
    if not (isinstance(w, Str) or isinstance(w, Sym) and base_ty(w.ty) in ('String', 'str')): return NotImplemented
    return strpred(L, ex, st, ci['m'], v[0], v[1])
@on('strip_prefix', 'strip_suffix', 'str::strip_prefix')
def _sp(L, ex, st, ci, v):
    s = L.to_str(ex, st, v[0]); p = pat(L, ex, st, v[1])
    m = 'starts_with' if ci['m'] == 'strip_prefix' else 'ends_with'
    b = strpred(L, ex, st, m, s, v[1])
    if not ex.truth(st, b) if not isinstance(b, bool) else not b: return NONE()
    if isinstance(p, str):
        if conc(s): return SOME(lit(text(s)[len(p):] if m == 'starts_with' else text(s)[:len(text(s)) - len(p)]))
        if m == 'starts_with' and isinstance(s.parts[0], str) and s.parts[0].startswith(p): return SOME(Str(tuple(x for x in (s.parts[0][len(p):],) + s.parts[1:] if x != '')))
        if m == 'starts_with' and p == 'r#' and isinstance(s.parts[0], tuple) and s.parts[0][0] == 'display': return SOME(Str((('unraw', s.parts[0][1]),) + s.parts[1:]))
    return SOME(Str((('strfn', ci['m'], s, p),)))
@on('trim_start_matches', 'trim_end_matches', 'trim_matches', 'trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'str::replace', 'replacen', 'repeat', 'trim_left_matches', 'trim_right_matches')
def _strfn(L, ex, st, ci, v):
    s = L.to_str(ex, st, v[0]); m = ci['m'].replace('trim_left', 'trim_start').replace('trim_right', 'trim_end')
    a = []
    for x in v[1:]:
        w = L.deref(ex, st, x)
        if isinstance(w, Adt) and w.n == 'closure' or isinstance(w, FnItem): a.append(ex.view(st, w))
        elif isinstance(w, int): a.append(w)
        else: a.append(pat(L, ex, st, x))
    if conc(s) and all(isinstance(x, str) for x in a):
        t = text(s)
        if m == 'trim': return lit(t.strip())
        if m == 'trim_start': return lit(t.lstrip())
        if m == 'trim_end': return lit(t.rstrip())
        if m == 'to_lowercase': return lit(t.lower())
        if m == 'to_uppercase': return lit(t.upper())
        if m == 'replace' and a[0]: return lit(t.replace(a[0], a[1]))
        if m in ('trim_start_matches', 'trim_matches') and a[0]:
            while t.startswith(a[0]): t = t[len(a[0]):]
        if m in ('trim_end_matches', 'trim_matches') and a[0]:
            while t.endswith(a[0]): t = t[:-len(a[0])]
        if m.startswith('trim'): return lit(t)
    p0 = s.parts[0] if s.parts else None
    if isinstance(p0, tuple) and p0[0] in ('display', 'unraw'):
        if m == 'trim_start_matches' and a == ['r#'] or m == 'replace' and a == ['r#', ''] and len(s.parts) == 1: return Str((('unraw', p0[1]),) + s.parts[1:])
        if m in ('trim', 'trim_start', 'trim_end') and len(s.parts) == 1: return s       # identifiers hold no white space
    return Str((('strfn', m, s) + tuple(a),))
@on('str::len', 'String::len')
def _slen(L, ex, st, ci, v):
    s = L.to_str(ex, st, v[0])
    return len(text(s).encode()) if conc(s) else Sym(('strlen', s), 'usize')
@on('str::is_empty', 'String::is_empty')
def _sempty(L, ex, st, ci, v):
    s = L.to_str(ex, st, v[0])
    if any(isinstance(p, str) and p for p in s.parts): return False
    if not s.parts: return True
    if any(p[0] in ('display', 'unraw') for p in s.parts): return False        # identifiers are not empty
    if len(s.parts) == 1 and s.parts[0][0] == 'str': return Sym(('streq', s.parts[0], ''), 'bool')
    return Sym(('eqs',) + tuple(sorted([s, lit('')], key=repr)), 'bool')
@on('str::as_bytes', 'eq_ignore_ascii_case')
def _eqi(L, ex, st, ci, v):
    if ci['m'] == 'as_bytes': return NotImplemented
    a, b = L.to_str(ex, st, v[0]), L.to_str(ex, st, v[1])
    if conc(a) and conc(b): return text(a).lower() == text(b).lower()
    return Sym(('eqi',) + tuple(sorted([a, b], key=repr)), 'bool')

@on('Punct::new')
def _punct(L, ex, st, ci, v):
    c = v[0][1] if isinstance(v[0], tuple) and v[0][0] == 'chr' else None
    sp = ex.resolve(st, v[1])
    if not isinstance(c, str) or not isinstance(sp, Adt) or sp.v != 'Alone': raise Unsupported('Punct::new')
    return Adt('Token', c, ())
@on('Literal::string')
def _lstr(L, ex, st, ci, v): return Adt('Parsed', None, (Toks((('s', L.to_str(ex, st, v[0])),)),))
@on('<TokenStreamExt>::append_terminated', 'TokenStream::append_terminated')
def _apt(L, ex, st, ci, v):
    w = L.deref(ex, st, v[1])
    t = L.items(ex, st, L.deref(ex, st, v[2]))
    segs = w.segs if isinstance(w, (Iter, Seq)) else L.segs(ex, st, w)
    out = ()
    for it in (x for s in segs for x in L.flat(ex, st, Seq((s,)))):
        out += (('fm', it[1], tuple((g, b + t if b else b) for g, b in it[2])),) if it[0] == 'fm' else (it,)
    if known(segs): 
        out = ()
        for s in segs: out += L.items(ex, st, s[1]) + t
    return L.append(ex, st, v[0], out)

# ------------------------------------------------------------ the proc-macro crate
@on('syn::parse')
def _synparse(L, ex, st, ci, v):
    t = base_ty(re.sub(r'^<(.*)>$', r'\1', (ci['gen'] or '').strip()))
    if t != 'DeriveInput': raise Unsupported('parse ' + ci['raw'])
    return Sym(('parse', t, ex.view(st, v[0])), 'Result<%s, SynError>' % t)
@on('builder_for_struct')
def _bfs(L, ex, st, ci, v): return Sym(('builder_for_struct', ex.view(st, v[0])), 'TokenStream')
