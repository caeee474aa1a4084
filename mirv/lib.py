"""Assumed contracts on library code (std, quote, proc_macro2, syn, darling).
Spans are erased: every Span is the same value."""
import re
from values import *
from mirparse import Unsupported, base_ty, ty_args, norm_ty, split_top, match_close
from ex import Fork, NeedFold, Diverge, add_lit, lits_of, consistent, State, subst, occurs
from canon import canon, cases_of

SPAN = Adt('Span', None, ())
GONE = ('gone',)        # no element here (a filtered sequence)
MSEQ = {'Vec', 'Punctuated', 'PathList', 'IntoIter', 'Iter', 'VecDeque'}

PUSH = {'colon': ':', 'colon2': '::', 'comma': ',', 'dot': '.', 'eq': '=', 'fat_arrow': '=>', 'gt': '>', 'lt': '<', 'or_or': '||',
        'or': '|', 'pound': '#', 'question': '?', 'rarrow': '->', 'semi': ';', 'shr': '>>', 'shl': '<<', 'and': '&', 'and_and': '&&',
        'add': '+', 'bang': '!', 'star': '*', 'sub': '-', 'div': '/', 'rem': '%', 'eq_eq': '==', 'ne': '!=', 'le': '<=', 'ge': '>=',
        'at': '@', 'dot2': '..', 'dot3': '...', 'dot_dot_eq': '..=', 'caret': '^', 'add_eq': '+=', 'sub_eq': '-=', 'rem_eq': '%=', 'div_eq': '/=', 'caret_eq': '^=', 'shl_eq': '<<=', 'shr_eq': '>>=',
        'and_eq': '&=', 'or_eq': '|=', 'mul_eq': '*=', 'larrow': '<-'}
DELIM = {'Parenthesis': '(', 'Brace': '{', 'Bracket': '[', 'None': ''}

def puncts(s): return tuple(('p', c) for c in s)

def lex(src):
    """tokens of a Rust snippet (quote's `parse` and our templates)"""
    out, stack, i = [], [], 0
    while i < len(src):
        c = src[i]
        if c.isspace(): i += 1; continue
        m = re.match(r'///?[^\n]*', src[i:]) if src.startswith('//', i) else None
        if m:
            t = m.group(0)
            if t.startswith('///'):
                out += [('p', '#'), ('g', '[', (('i', 'doc'), ('p', '='), ('s', lit(t[3:]))))]
            i += m.end(); continue
        m = re.match(r"'[A-Za-z_]\w*(?!')", src[i:])
        if m: out.append(('lt', m.group(0))); i += m.end(); continue
        m = re.match(r'"((?:[^"\\]|\\.)*)"', src[i:])
        if m:
            from ex import unescape
            out.append(('s', lit(unescape(m.group(1))))); i += m.end(); continue
        m = re.match(r'r(#*)"', src[i:])
        if m:
            close = '"' + m.group(1); j = src.index(close, i + m.end())
            out.append(('s', lit(src[i + m.end():j]))); i = j + len(close); continue
        m = re.match(r'(r#)?[A-Za-z_]\w*', src[i:])
        if m: out.append(('i', m.group(0))); i += m.end(); continue
        m = re.match(r'\d\w*', src[i:])
        if m: out.append(('l', m.group(0))); i += m.end(); continue
        if c in '([{': stack.append((c, out)); out = []; i += 1; continue
        if c in ')]}':
            d, prev = stack.pop(); prev.append(('g', d, tuple(out))); out = prev; i += 1; continue
        out.append(('p', c)); i += 1
    return tuple(out)

def ident_of(s):
    """token of an identifier with the given spelling (Str)"""
    if len(s.parts) == 1 and isinstance(s.parts[0], str): return ('i', s.parts[0])
    return ('id', s)

def catstr(*ss):
    out = []
    for s in ss:
        for p in s.parts:
            if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
            else: out.append(p)
    return Str(tuple(p for p in out if p != ''))

class Lib:
    def __init__(self):
        self.opaque = {}      # 'Type::method' of repo functions kept abstract -> result type

    # ------------------------------------------------------------ executor hooks
    def project(self, ex, st, v, i, ty, var):
        if isinstance(v, (Seq, Toks, Str)) and base_ty(ty) in ('Unique', 'NonNull', 'RawVec'): return v
        if isinstance(v, FnItem): return v
        return None
    def sym_variant(self, ex, st, v, en): return None
    def variant_of(self, ex, st, v): return None
    def enum_of(self, ex, st, v): return None
    def const(self, ex, s):
        m = re.match(r'^(?:\w+::)*([A-Z]\w*)(?:::<.*>)?::([A-Z]\w*)$', s)
        if m and ex.ctx.variants(m.group(1)) and m.group(2) in ex.ctx.variants(m.group(1)): return Adt(m.group(1), m.group(2), ())
        m = re.match(r'^Option::<.*>::None$', s)
        if m: return NONE()
        m = re.match(r'^(?:\w+::)*([A-Z]\w*)$', s)
        if m and not ex.ctx.free.get(s): return Adt(m.group(1), None, ())
        return None

    def seq_len(self, ex, st, v):
        v = self.deref(ex, st, v)
        segs = self.segs(ex, st, v)
        if all(s[0] == 'e' for s in segs): return len(segs)
        return Sym(self.lent(segs), 'usize')

    def lent(self, segs):
        return ('len', segs[0][1]) if len(segs) == 1 and segs[0][0] == 'all' else ('len', Seq(segs))

    def lenof(self, st, t):
        c = st.pc.get(('int', ('len', t)))
        return c[1] if c and c[0] == '=' else None

    def nth_elem(self, st, t, ty, i):
        """element i of an unknown list; the last one has one name whatever its position"""
        return Sym(('lastof', t) if self.lenof(st, t) == i + 1 else ('idx', t, i), ty)

    def len_is(self, ex, st, lt, n):
        t = lt[1]
        seq = t if isinstance(t, Seq) else Seq((('all', t, '?'),))
        e = self.is_empty(ex, st, seq)
        if n == 0 or isinstance(e, bool): return e if n == 0 else Sym(('inteq', lt, n), 'bool') if not e else False
        return Sym(('and', ('not', e.t), ('inteq', lt, n)), 'bool')

    def cmp(self, ex, st, op, a, b):
        # len(x) == 0 / len(x) < 1
        if isinstance(a, Sym) and isinstance(a.t, tuple) and a.t[0] == 'len' and isinstance(b, int):
            if (op == 'Eq' and b == 0) or (op == 'Lt' and b == 1) or (op == 'Le' and b == 0):
                return self.len_is(ex, st, a.t, 0)
            if op == 'Eq' and b > 0: return self.len_is(ex, st, a.t, b)
            if (op == 'Lt' and 0 < b <= 4) or (op == 'Le' and 0 <= b < 4): return self.len_in(ex, st, a.t, range(b + (op == 'Le')))
        if isinstance(b, Sym) and isinstance(b.t, tuple) and b.t[0] == 'len' and isinstance(a, int):
            if op == 'Eq': return self.len_is(ex, st, b.t, a) if a >= 0 else False
            if (op == 'Lt' and 0 <= a < 4) or (op == 'Le' and 0 < a <= 4): return not ex.truth(st, self.len_in(ex, st, b.t, range(a + (op == 'Lt'))))
        return None

    def len_in(self, ex, st, lt, ns):
        for n in ns:
            if ex.truth(st, self.len_is(ex, st, lt, n)): return True
        return False

    # ------------------------------------------------------------ helpers
    def deref(self, ex, st, v):
        n = 0
        while True:
            v = ex.resolve(st, v)
            if isinstance(v, Ref): v = ex.read_loc(st, (v.cell, v.path))
            else: return v
            n += 1
            if n > 50: raise Unsupported('reference cycle')

    def lastref(self, ex, st, v):
        v = ex.resolve(st, v)
        if isinstance(v, Sym) and v.ty.startswith('&'):
            return Ref(('ext', v.t, Sym(v.t, re.sub(r'^&(mut )?', '', v.ty))), ())
        if not isinstance(v, Ref): raise Unsupported('not a reference: %s' % show(v))
        while True:
            w = ex.resolve(st, ex.read_loc(st, (v.cell, v.path)))
            if not isinstance(w, Ref): return v
            v = w

    def get(self, ex, st, ref): return ex.resolve(st, ex.read_loc(st, (ref.cell, ref.path)))
    def set(self, ex, st, ref, v): ex.write_loc(st, (ref.cell, ref.path), v)

    def segs(self, ex, st, v):
        v = self.deref(ex, st, v)
        if isinstance(v, (Seq, Iter)): return v.segs
        if isinstance(v, Sym):
            t = v.ty
            while t.startswith('&'): t = re.sub(r'^&(mut )?', '', t)
            b = base_ty(t)
            if b in MSEQ:
                a = ty_args(t)
                el = a[0] if a else {'PathList': 'Path'}.get(b)
                if el is None: raise Unsupported('element type of ' + v.ty)
                n = self.lenof(st, v.t)
                if n is not None: return tuple(('e', self.nth_elem(st, v.t, el, i)) for i in range(n))
                return (('all', v.t, el),)
            if t.startswith('['):
                return (('all', v.t, split_top(t[1:-1], ';')[0].strip()),)
        if isinstance(v, Adt) and v.n in ('array',): return tuple(('e', x) for x in v.fs)
        if isinstance(v, Adt) and v.n == 'PathList': return self.segs(ex, st, v.fs[0])
        if isinstance(v, Adt) and ex.ctx.method(v.n, 'next'):
            # an iterator implemented in the repository: what its own `next` yields
            return itcases(self, ex, st, v, lambda s, el: [(s, (('e', ex.view(s, el)),))]).segs
        raise Unsupported('not a sequence: %s' % show(v))

    def is_seq(self, ex, v):
        if isinstance(v, Seq): return True
        if isinstance(v, Sym):
            t = v.ty
            while t.startswith('&'): t = re.sub(r'^&(mut )?', '', t)
            return base_ty(t) in MSEQ or t.startswith('[')
        return False

    def is_empty(self, ex, st, seq):
        segs = seq.segs if isinstance(seq, Seq) else self.segs(ex, st, seq)
        conds = []
        for s in segs:
            if s[0] == 'e': return False
            if s[0] == 'all': conds.append(('empty', s[1]))
            elif s[0] == 'map':
                ne = [g for g, b in s[2] if b]
                if not ne: continue
                if all(any(x[0] == 'e' for x in b) for g, b in s[2]): conds.append(('empty', s[1]))
                else: conds.append(('not', self.any_term(ex, st, s[1], [(g, bool(b)) for g, b in s[2]])))
            else: raise Unsupported('emptiness of %s' % (s,))
        if not conds: return True
        t = conds[0]
        for c in conds[1:]: t = ('and', t, c)
        return Sym(t, 'bool')

    def any_term(self, ex, st, seqt, cases):
        """some element of seqt satisfies the (canonical) predicate"""
        return ('any', seqt, canon(ex.ctx, st.pc, tuple(cases)))

    # ------------------------------------------------------------ tokens
    def to_tokens(self, ex, st, v, tok):
        """append to_tokens(v) to the stream at tok; -> outcomes"""
        raw = v
        v = self.deref(ex, st, v)
        ty = None
        if isinstance(v, Adt): ty = v.n
        elif isinstance(v, Sym): ty = base_ty(v.ty)
        if ty == 'Option':
            k = ex.variant(st, v)
            if k == 'None': return [(st, 'ret', UNIT)]
            return self.to_tokens(ex, st, ex.proj(st, v, ('f', 0, (ty_args(v.ty) or ['?'])[0] if isinstance(v, Sym) else '?', 'Some')), tok)
        if ty in ('Cow', 'RepInterp', 'Box'):
            if isinstance(v, Sym): return self.to_tokens(ex, st, Sym(v.t, ty_args(v.ty)[0]), tok)
            return self.to_tokens(ex, st, v.fs[0], tok)
        if ty == 'DefaultTokens': pass
        fn = ex.ctx.method(ty, 'to_tokens') if ty else None
        if fn is not None:
            return ex.call_fn(st, fn, [self.lastref(ex, st, raw) if isinstance(ex.resolve(st, raw), Ref) else ex.new_cell(st, v), tok])
        return self.append(ex, st, tok, self.items(ex, st, v))

    def append(self, ex, st, tok, items):
        r = self.lastref(ex, st, tok)
        cur = self.get(ex, st, r)
        if isinstance(cur, Sym): cur = Toks((('h', cur),))
        if not isinstance(cur, Toks): raise Unsupported('token stream is %s' % show(cur))
        self.set(ex, st, r, Toks(cur.items + tuple(items)))
        return [(st, 'ret', UNIT)]

    def items(self, ex, st, v):
        v = ex.view(st, v)
        v = ex.resolve(st, v)
        if isinstance(v, Toks): return v.items
        if isinstance(v, Str): return (('s', v),)
        if isinstance(v, bool): return (('i', 'true' if v else 'false'),)
        if isinstance(v, Adt):
            if v.n == 'Ident': return (ident_of(v.fs[0]),)
            if v.n == 'Parsed': return v.fs[0].items
            if v.n == 'Visibility':
                if v.v == 'Public': return (('i', 'pub'),)
                if v.v == 'Inherited': return ()
            if v.n == 'Option': return () if v.v == 'None' else self.items(ex, st, v.fs[0])
            if v.n in ('RepInterp', 'Cow', 'Box'): return self.items(ex, st, v.fs[0])
            if v.n == 'Block': return (('g', '{', self.block_items(ex, st, v.fs[1])),)
            if v.n == 'Stmt' and v.v == 'Expr':
                semi = () if v.fs[1].v == 'None' else (('p', ';'),)
                return self.items(ex, st, v.fs[0]) + semi
            if v.n == 'TokenTree': return self.items(ex, st, v.fs[0])
            if v.n == 'Group': return (('g', v.v, v.fs[0].items),)
            if v.n == 'Token': return puncts(v.v)
            if v.n in ('ImplGenerics', 'TypeGenerics', 'WhereClauseOf', 'MapParams', 'CompileError', 'Turbofish'): return (('h', v),)
            if v.n == 'Path' and len(v.fs) == 1: return self.items(ex, st, v.fs[0])
        if isinstance(v, Sym):
            b = base_ty(v.ty)
            if b in ('String', 'str'): return (('s', Str((('str', v.t),))),)
            if b == 'Visibility':
                # an undetermined visibility prints as itself
                cur = st.pc.get(('disc', v.t, 'Visibility'))
                if cur == ('=', 'Inherited'): return ()
                if cur == ('=', 'Public'): return (('i', 'pub'),)
            if b in ('Pound',): return (('p', '#'),)
            return (('h', v),)
        if isinstance(v, Seq):
            return (('sep', ',', v.segs),)
        raise Unsupported('to_tokens of %s' % show(v))

    def block_items(self, ex, st, stmts):
        if isinstance(stmts, Sym): return (('fm', stmts.t, (((), (('h', Sym(('elem', stmts.t), 'Stmt')),)),)),)
        out = ()
        for s in stmts.segs:
            if s[0] != 'e': raise Unsupported('block statements')
            out += self.items(ex, st, s[1])
        return out

    def flat(self, ex, st, seq):
        """#(#xs)* over any sequence of streams / printable values"""
        out = ()
        for s in (seq.segs if isinstance(seq, (Seq, Iter)) else self.segs(ex, st, seq)):
            if s[0] == 'e': out += self.items(ex, st, s[1])
            elif s[0] == 'all': out += (('fm', s[1], (((), (('h', Sym(('elem', s[1]), s[2])),)),)),)
            elif s[0] == 'map':
                cs = []
                for g, b in s[2]:
                    it = ()
                    for x in b:
                        if x[0] != 'e': raise Unsupported('nested map')
                        it += self.items(ex, st, x[1])
                    cs.append((g, it))
                out += (('fm', s[1], canon(ex.ctx, {}, tuple(cs))),)
            else: raise Unsupported('flat %s' % (s,))
        return out

    # ------------------------------------------------------------ strings
    def display(self, ex, st, v):
        """Display of v -> Str"""
        v = ex.view(st, v)
        v = ex.resolve(st, v)
        if isinstance(v, Str): return v
        if isinstance(v, Adt) and v.n == 'Ident': return v.fs[0]
        if isinstance(v, Adt) and v.n == 'IdentFragmentAdapter':
            w = ex.resolve(st, v.fs[0])
            if isinstance(w, Sym):
                return Str((('unraw', w.t),)) if base_ty(w.ty) == 'Ident' else Str((('str', w.t),))
            s = self.display(ex, st, w)
            if s.parts and isinstance(s.parts[0], str) and s.parts[0].startswith('r#'): return Str((s.parts[0][2:],) + s.parts[1:])
            if s.parts and isinstance(s.parts[0], tuple) and s.parts[0][0] == 'display': return Str((('unraw', s.parts[0][1]),) + s.parts[1:])
            return s
        if isinstance(v, Sym):
            b = base_ty(v.ty)
            if b == 'Ident': return Str((('display', v.t),))
            if b in ('String', 'str'): return Str((('str', v.t),))
        if isinstance(v, tuple) and v and v[0] == 'chr': return lit(v[1])
        return Str((('displayof', v),))

    def arguments(self, ex, st, a):
        a = self.deref(ex, st, a)
        return a.fs[0]

    def mk_ident_from(self, ex, st, s, raw_ok):
        """Ident::new (raw_ok False) / quote's mk_ident (raw_ok True); the text must be a plain identifier"""
        s = self.to_str(ex, st, s)
        parts = []
        for n, p in enumerate(s.parts):
            if isinstance(p, tuple) and p[0] == 'display':
                # the spelling of an identifier: raw ones carry r#, which is not an identifier character
                if n > 0 or not raw_ok:
                    if ex.truth(st, Sym(('raw', p[1]), 'bool')): raise Diverge('Ident::new on text containing `r#`')
                    p = ('unraw', p[1])
            parts.append(p)
        s = catstr(Str(tuple(parts)))
        if s.parts and isinstance(s.parts[0], str):
            if not re.match(r'^(r#)?[A-Za-z_]\w*$' if raw_ok else r'^[A-Za-z_]\w*$', s.parts[0]): raise Diverge('Ident::new(%s)' % show(s))
        for p in s.parts:
            if isinstance(p, str) and not re.match(r'^\w*$', p) and not (raw_ok and p.startswith('r#')): raise Diverge('Ident::new(%s)' % show(s))
        if not s.parts: raise Diverge('Ident::new("")')
        return Adt('Ident', None, (s,))

    def to_str(self, ex, st, v):
        v = self.deref(ex, st, v)
        if isinstance(v, Str): return v
        if isinstance(v, Sym): return Str((('str', v.t),))
        raise Unsupported('not a string: %s' % show(v))

    def str_eq(self, ex, st, a, b):
        a, b = self.to_str(ex, st, a), self.to_str(ex, st, b)
        if a == b: return True
        conc = lambda s: all(isinstance(p, str) for p in s.parts)
        if conc(a) and conc(b): return ''.join(a.parts) == ''.join(b.parts)
        if conc(a): a, b = b, a
        if not conc(b): return self.str_rel('eqs', *sorted([a, b], key=repr))
        text = ''.join(b.parts)
        if len(a.parts) == 1 and isinstance(a.parts[0], tuple):
            p = a.parts[0]
            if p[0] == 'smap' and len(p[2]) == 1 and p[2][0][0] == ():
                body = p[2][0][1]
                # identifiers, each followed by a separator that no identifier contains
                if len(body) == 2 and isinstance(body[1], str) and body[1] and not re.search(r'[\w#]', body[1]) and \
                   isinstance(body[0], tuple) and body[0][0] == 'display':
                    sep = body[1]
                    if not text: return Sym(('empty', p[1]), 'bool')
                    if not text.endswith(sep): return False
                    return self.names_are(ex, st, p[1], body[0], text[:-len(sep)].split(sep))
            if p[0] in ('display', 'str', 'unraw', 'pathstr', 'displayof'): return Sym(('streq', p, text), 'bool')
            if p[0] == 'join' and len(p[1].segs) == 1 and p[1].segs[0][0] == 'map' and conc(p[2]):
                # identifiers, joined by a separator that no identifier contains (no identifier is empty)
                sep, (_, seqt, cs) = ''.join(p[2].parts), p[1].segs[0]
                body = cs[0][1] if len(cs) == 1 and cs[0][0] == () and len(cs[0][1]) == 1 and cs[0][1][0][0] == 'e' else None
                el = body and body[0][1]
                if sep and not re.search(r'[\w#]', sep) and isinstance(el, Str) and len(el.parts) == 1 and isinstance(el.parts[0], tuple) and el.parts[0][0] == 'display':
                    if not text: return Sym(('empty', seqt), 'bool')
                    return self.names_are(ex, st, seqt, el.parts[0], text.split(sep))
        return self.str_rel('eqs', a, b)

    def per_typaram(self, ex, st, seg, cases):
        """what a loop over all generic parameters does to the type parameters; the others must be left as they are"""
        el, seqt = ('elem', seg[1]), ('typarams', seg[5])
        a, pl = ('disc', el, 'GenericParam'), None
        out = []
        for g, v in cases:
            kinds = [(o, x) for b, o, x in g if b == a]
            ty = all(x == 'Type' if o == '=' else 'Type' not in x for o, x in kinds)
            if v != Sym(el, 'GenericParam') and not (isinstance(v, Adt) and v.v == 'Type' and ty): raise Unsupported('a loop over generic parameters that changes other ones')
            if not ty: continue
            p = ex.proj(st, Sym(el, 'GenericParam'), ('f', 0, 'TypeParam', 'Type'))
            f = lambda x: subst(x, p.t, ('elem', seqt))
            g2 = tuple((f(b), o, x) for b, o, x in g if b != a)
            v2 = f(v.fs[0]) if isinstance(v, Adt) else Sym(('elem', seqt), 'TypeParam')
            if occurs((g2, v2), seg[1]) or any(b == a for b, _, _ in g2): raise Unsupported('a loop over generic parameters')
            out.append((g2, v2))
        return seqt, out

    def names_are(self, ex, st, seqt, name, want):
        """the list has that many elements and `name` of each is the wanted one"""
        t = self.len_is(ex, st, ('len', seqt), len(want))
        if t is False: return False
        for i, w in enumerate(want):
            el = ('lastof', seqt) if i == len(want) - 1 else ('idx', seqt, i)
            t = Sym(('and', t.t, ('streq', subst(name, ('elem', seqt), el), w)), 'bool')
        return t

    def str_rel(self, rel, a, b):
        """a relation between strings that are not both known: an uninterpreted predicate"""
        return Sym((rel, a, b), 'bool')

    # ------------------------------------------------------------ iterators
    def next(self, ex, st, itref):
        r = self.lastref(ex, st, itref)
        it = self.get(ex, st, r)
        loc = (r.cell, r.path)
        if isinstance(it, Adt):
            # an iterator implemented in the repository
            fn = ex.ctx.method(it.n, 'next')
            if fn: return ex.call_fn(st, fn, [r])
        if isinstance(it, Sym): it = Iter(self.segs(ex, st, it)); self.set(ex, st, r, it)
        if not isinstance(it, Iter): raise Unsupported('next on %s' % show(it))
        while it.segs and it.segs[0][0] == 'stepped':
            raise Unsupported('iterator advanced twice in one iteration')
        if not it.segs: return [(st, 'ret', NONE())]
        s = it.segs[0]
        if s[0] == 'e':
            self.set(ex, st, r, Iter(it.segs[1:]))
            return [(st, 'ret', SOME(s[1]))]
        if s[0] == 'step':
            self.set(ex, st, r, Iter((('stepped', s[1]),) + it.segs[1:]))
            return [(st, 'ret', SOME(s[2] if len(s) > 2 else self.element(ex, st, s[1])))]
        if s[0] in ('all', 'map', 'mutall'):
            for token, heap in reversed(ex.loops):
                if r.cell in heap: raise NeedFold(token, loc)
            # outside any loop: only its emptiness matters
            if s[0] == 'all':
                e = ex.truth(st, Sym(('empty', s[1]), 'bool'))
                if e:
                    self.set(ex, st, r, Iter(it.segs[1:]))
                    return self.next(ex, st, itref)
                self.set(ex, st, r, Poison('iterator advanced past an unknown element'))
                return [(st, 'ret', SOME(Sym(('idx', s[1], 0), s[2])))]
        raise Unsupported('next on %s' % show(it))

    def element(self, ex, st, seg):
        if seg[0] == 'all': return Sym(('elem', seg[1]), seg[2])
        if seg[0] == 'mutall': return Ref(seg[3], ())
        if seg[0] == 'map':
            cs = []
            for g, b in seg[2]:
                if len(b) != 1 or b[0][0] != 'e': raise Unsupported('element of a filtered sequence')
                cs.append((g, b[0][1]))
            if len(cs) == 1: return cs[0][1]
            return Cases(tuple(cs))
        raise Unsupported('element of %s' % (seg,))

    def gen_next(self, ex, st, it, seg):
        pass

    def iter_outcomes(self, ex, st, itv, f):
        """run f(state, element) for the segments of an iterator value.
        -> list of (seg, [(guards, result)]) ; f must not write to memory visible outside"""
        itv = self.deref(ex, st, itv)
        if isinstance(itv, Adt) and ex.ctx.method(itv.n, 'next'):
            segs, mk = self.repo_iter(ex, st, itv)
            plain = None
        else:
            segs = itv.segs if isinstance(itv, (Iter, Seq)) else self.segs(ex, st, itv)
            mk = plain = lambda s, seg: [(s, self.element(ex, s, seg))]
        out = []
        for seg in segs:
            if seg[0] == 'e':
                outs = f(st.fork(), seg[1])
            elif seg[0] in ('all', 'map'):
                outs = []
                if seg[0] == 'map' and mk is plain and any(len(b) != 1 for _, b in seg[2]):
                    # a filtered sequence: f sees the elements that are there
                    for g, b in seg[2]:
                        s2 = st.fork()
                        if not all(add_lit(ex.ctx, s2.pc, l) for l in g): continue
                        if not b: outs.append((s2, GONE)); continue
                        if len(b) != 1 or b[0][0] != 'e': raise Unsupported('several elements per element')
                        outs += f(s2, b[0][1])
                else:
                    for s2, el in mk(st.fork(), seg): outs += f(s2, el)
            else: raise Unsupported('iterate %s' % (seg,))
            res = []
            for s, r in outs:
                for c, x in s.heap.items():
                    if c in st.heap and st.heap[c] is not x and st.heap[c] != x: raise Unsupported('closure with side effects')
                res.append((lits_of(s.pc, st.pc), r, s))
            out.append((seg, res))
        return out

    def repo_iter(self, ex, st, itv):
        """a repository iterator whose next() maps the next element of one inner iterator"""
        inner = [i for i, x in enumerate(itv.fs) if isinstance(x, Iter)]
        if len(inner) != 1: raise Unsupported('iterator %s' % show(itv))
        k = inner[0]
        fn = ex.ctx.method(itv.n, 'next')
        def mk(s, seg):
            fs = list(itv.fs); fs[k] = Iter((('step', seg),))
            ref = ex.new_cell(s, Adt(itv.n, itv.v, tuple(fs)))
            r = []
            for s2, kind, v in ex.call_fn(s, fn, [ref]):
                if kind != 'ret': raise Unsupported('iterator panics')
                v = ex.resolve(s2, v)
                if not (isinstance(v, Adt) and v.v == 'Some'): raise Unsupported('iterator does not map')
                now = ex.read_loc(s2, (ref.cell, ref.path))
                if now.fs[k] != Iter((('stepped', seg),)): raise Unsupported('iterator does not consume one element')
                r.append((s2, v.fs[0]))
            return r
        return itv.fs[k].segs, mk

    def callf(self, ex, f, conv):
        """wrap a function value: (state, el) -> [(state, conv(result))], forking internally"""
        def run(s, el):
            done, work = [], [s]
            while work:
                s0 = work.pop()
                try: outs = ex.call_value(s0.fork(), f, [el])
                except Fork as fk:
                    for g in fk.alts:
                        s2 = s0.fork()
                        if all(add_lit(ex.ctx, s2.pc, l) for l in g): work.append(s2)
                    continue
                for s2, kind, v in outs:
                    if kind != 'ret': raise Unsupported('closure panics')
                    work2 = [s2]
                    while work2:
                        s3 = work2.pop()
                        try: done.append((s3, conv(s3, v)))
                        except Fork as fk:
                            for g in fk.alts:
                                s4 = s3.fork()
                                if all(add_lit(ex.ctx, s4.pc, l) for l in g): work2.append(s4)
            return done
        return run

    # ------------------------------------------------------------ calls
    def call(self, ex, st, ci, vals):
        key = None
        ty = base_ty(ci['ty']) if ci['ty'] else None
        m = ci['m']
        cand = []
        if ty: cand.append('%s::%s' % (ty, m))
        if ci['trait']: cand.append('<%s>::%s' % (base_ty(ci['trait']), m))
        cand.append(m)
        for k in cand:
            h = TABLE.get(k)
            if h:
                ex.assumed.add(k)
                r = h(self, ex, st, ci, vals)
                if r is NotImplemented: continue
                if isinstance(r, list): return r
                return [(st, 'ret', r)]
        if m.startswith('push_'):
            r = self.push(ex, st, m[5:], vals)
            if r is not None: ex.assumed.add('quote::push_*'); return r
        for k in cand:
            if k in self.opaque:
                ex.assumed.add('opaque ' + k)
                args = tuple(ex.view(st, v) for v in vals)
                return [(st, 'ret', Sym(('app', k) + args, self.opaque[k]))]
        raise Unsupported('no contract for %s' % ci['raw'])

    def push(self, ex, st, what, vals):
        if what.endswith('_spanned'):
            what = what[:-8]; vals = [vals[0]] + vals[2:]
        if what in PUSH: return self.append(ex, st, vals[0], puncts(PUSH[what]))
        if what == 'ident':
            s = self.to_str(ex, st, vals[1])
            return self.append(ex, st, vals[0], (ident_of(s),))
        if what == 'lifetime':
            return self.append(ex, st, vals[0], (('lt', ''.join(self.to_str(ex, st, vals[1]).parts)),))
        if what == 'underscore': return self.append(ex, st, vals[0], (('i', '_'),))
        if what == 'group':
            d = ex.resolve(st, vals[1])
            inner = self.deref(ex, st, vals[2])
            return self.append(ex, st, vals[0], (('g', DELIM[d.v], self.items(ex, st, inner)),))
        return None

TABLE = {}
def on(*names):
    def deco(f):
        for n in names:
            assert n not in TABLE, n
            TABLE[n] = f
        return f
    return deco

# ---- identity-like
@on('<Deref>::deref', '<DerefMut>::deref_mut', '<AsRef>::as_ref', '<Borrow>::borrow', 'Cow::deref', 'must_use', 'Vec::as_slice', 'String::as_str', 'String::as_mut_str',
    'get_span', 'Option::as_deref', 'Vec::as_mut_slice', 'identity', 'PathList::deref', 'Box::as_ref', 'black_box')
def _id(L, ex, st, ci, v):
    t = base_ty(ci['ty']) if ci['ty'] else None
    if ci['m'] == 'deref' and t == 'SpannedValue':
        w = L.deref(ex, st, v[0])
        if isinstance(w, Sym): return Sym(('f', w.t, 'value'), ty_args(w.ty)[0])
        return w.fs[0]
    return v[0]

@on('<Clone>::clone', '<ToOwned>::to_owned', 'Cow::into_owned', 'Option::cloned', 'Option::copied', 'Cow::to_owned', 'Vec::to_vec', 'to_vec')
def _clone(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0])
    if isinstance(w, Adt) and w.n == 'Cow': w = L.deref(ex, st, w.fs[0])
    return copyval(ex, st, w)
def copyval(ex, st, w):
    return ex.view(st, w)

@on('Span::call_site', 'Span::mixed_site', 'Span::def_site', 'GetSpan::__into_span', '__into_span', '<Spanned>::span', 'SpannedValue::span', 'Flag::span',
    'LitStr::span', 'Span::resolved_at', 'Span::located_at', 'Ident::span', 'Group::span', 'TokenTree::span', 'Span::join', 'Group::span_open', 'Lit::span')
def _span(L, ex, st, ci, v): return SPAN
@on('IdentFragmentAdapter::span')
def _fspan(L, ex, st, ci, v): return SOME(SPAN)
@on('Group::set_span', 'TokenTree::set_span', 'Ident::set_span', 'Punct::set_span', 'Literal::set_span', 'LitStr::set_span')
def _setspan(L, ex, st, ci, v): return UNIT

# ---- token streams
@on('TokenStream::new', 'TokenStream::default')
def _tsnew(L, ex, st, ci, v): return Toks(())
@on('<ToTokens>::to_tokens', 'to_tokens')
def _tt(L, ex, st, ci, v): return L.to_tokens(ex, st, v[0], v[1])
@on('<ToTokens>::into_token_stream', '<ToTokens>::to_token_stream', 'into_token_stream', 'to_token_stream', '<Into>::into_token_stream')
def _its(L, ex, st, ci, v):
    cell = ex.new_cell(st, Toks(()))
    return [(s, k, L.get(ex, s, cell) if k == 'ret' else r) for s, k, r in L.to_tokens(ex, st, v[0], cell)]
@on('<TokenStreamExt>::append_all', 'TokenStream::append_all')
def _aa(L, ex, st, ci, v):
    w = L.deref(ex, st, v[1])
    if isinstance(w, Iter) or L.is_seq(ex, w): return L.append(ex, st, v[0], L.flat(ex, st, w))
    return L.to_tokens(ex, st, v[1], v[0])
@on('<TokenStreamExt>::append', 'TokenStream::append')
def _ap(L, ex, st, ci, v): return L.to_tokens(ex, st, v[1], v[0])
@on('<Extend>::extend', 'extend', 'Vec::extend_from_slice')
def _ext(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[0]); cur = L.get(ex, st, r)
    w = L.deref(ex, st, v[1])
    if isinstance(cur, Toks):
        if isinstance(w, (Toks,)) or isinstance(w, Sym) and base_ty(w.ty) in ('TokenStream', 'Option') or isinstance(w, Adt) and w.n in ('Option', 'TokenTree'): return L.to_tokens(ex, st, w, v[0])
        return L.append(ex, st, v[0], L.flat(ex, st, w))
    segs = L.segs(ex, st, cur)
    if isinstance(w, Adt) and w.n == 'Option':
        add = () if w.v == 'None' else (('e', w.fs[0]),)
    elif isinstance(w, Sym) and base_ty(w.ty) == 'Option':
        add = () if ex.variant(st, w) == 'None' else (('e', ex.proj(st, w, ('f', 0, ty_args(w.ty)[0], 'Some'))),)
    else: add = w.segs if isinstance(w, (Iter, Seq)) else L.segs(ex, st, w)
    L.set(ex, st, r, Seq(segs + tuple(add)))
    return UNIT
@on('parse', 'quote::__private::parse')
def _qparse(L, ex, st, ci, v):
    if len(v) != 2: return NotImplemented
    s = L.to_str(ex, st, v[1])
    return L.append(ex, st, v[0], lex(''.join(s.parts)))
@on('parse_spanned')
def _qparses(L, ex, st, ci, v):
    s = L.to_str(ex, st, v[2])
    return L.append(ex, st, v[0], lex(''.join(s.parts)))
@on('TokenStream::is_empty')
def _tsempty(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0])
    if isinstance(w, Toks):
        if any(i[0] in 'ipgls' for i in w.items): return False
        if not w.items: return True
        if len(w.items) == 1: return Sym(('notokens', w.items[0]), 'bool')
        raise Unsupported('emptiness of tokens')
    return Sym(('notokens', ('h', w)), 'bool')
@on('<RepAsIteratorExt>::quote_into_iter', 'quote_into_iter', '<RepIteratorExt>::quote_into_iter', '<RepToTokensExt>::quote_into_iter')
def _qii(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0])
    if isinstance(w, Iter) or L.is_seq(ex, w):
        return tup(Iter(w.segs if isinstance(w, Iter) else L.segs(ex, st, w)), Adt('HasIterator', None, ()))
    return tup(v[0], Adt('ThereIsNoIteratorInRepetition', None, ()))
@on('<BitOr>::bitor')
def _bitor(L, ex, st, ci, v):
    return Adt('HasIterator', None, ()) if any(isinstance(L.deref(ex, st, x), Adt) and L.deref(ex, st, x).n == 'HasIterator' for x in v) else v[0]
@on('<RepToTokensExt>::next')
def _rnext(L, ex, st, ci, v): return SOME(v[0])
@on('mk_ident')
def _mkid(L, ex, st, ci, v): return L.mk_ident_from(ex, st, v[0], True)
@on('Ident::new')
def _idnew(L, ex, st, ci, v): return L.mk_ident_from(ex, st, v[0], False)
@on('parse_quote', 'parse_quote_spanned', 'syn::parse_quote')
def _pq(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0])
    t = base_ty(re.sub(r'^<(.*)>$', r'\1', ci['gen'].strip())) if ci['gen'] else base_ty(ci['dty'] or '?')
    items = L.items(ex, st, w)
    if total_parse(t, items) is None and not parses(L, ex, st, 'Meta', items[1][2]): raise Diverge('parse_quote')
    return parsed(t, items)
def parses(L, ex, st, t, items):
    """whether a token sequence is a well-formed T: decided for the shapes the crate writes itself, otherwise open"""
    return ex.truth(st, Sym(('parses', t, tuple(items)), 'bool'))
@on('MetaList::parse_args', 'Attribute::parse_args')
def _pargs(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0])
    t = base_ty(re.sub(r'^<(.*)>$', r'\1', ci['gen'].strip()))
    if ci['ty'] and base_ty(ci['ty']) == 'Attribute': raise Unsupported('Attribute::parse_args')
    items = L.items(ex, st, ex.proj(st, w, ('f', 2, 'TokenStream', None)))
    if parses(L, ex, st, t, items): return OK(parsed(t, items))
    return ERR(Adt('SynError', 'parse', ()))
@on('syn::parse2', 'parse2')
def _parse2(L, ex, st, ci, v):
    t = base_ty(re.sub(r'^<(.*)>$', r'\1', ci['gen'].strip()))
    items = L.items(ex, st, L.deref(ex, st, v[0]))
    if parses(L, ex, st, t, items): return OK(parsed(t, items))
    return ERR(Adt('SynError', 'parse', ()))
def total_parse(t, items):
    """quotations that are well formed whatever is spliced in"""
    if t == 'Attribute' and len(items) == 2 and items[0] == ('p', '#') and items[1][0] == 'g':
        inner = items[1][2]
        if len(inner) >= 3 and inner[0] == ('i', 'doc') and inner[1] == ('p', '='): return True
        return None
    return True
def parsed(t, items):
    if t == 'Visibility':
        if items == (('i', 'pub'),): return Adt('Visibility', 'Public', (UNIT,))
        if items == (): return Adt('Visibility', 'Inherited', ())
    if t == 'Pub':
        if items != (('i', 'pub'),): raise Diverge('parse_quote')
        return UNIT
    if t == 'Ident' and len(items) == 1 and items[0][0] == 'i': return Adt('Ident', None, (lit(items[0][1]),))
    return Adt('Parsed', None, (Toks(items),))

# ---- fmt
@on('Argument::new_display', 'Argument::new_debug')
def _nd(L, ex, st, ci, v): return Arg(ex.view(st, v[0]), ci['m'][4:])
@on('new_v1', 'Arguments::new_v1', '<impl Arguments>::new_v1')
def _v1(L, ex, st, ci, v):
    pieces = [x[1] for x in L.segs(ex, st, v[0])]
    args = [L.deref(ex, st, x[1]) for x in L.segs(ex, st, v[1])]
    return Adt('Arguments', None, (fmt(L, ex, st, pieces, list(args)),))
def fmt(L, ex, st, pieces, args):
    out = []
    for i in range(max(len(pieces), len(args))):
        if i < len(pieces): out.append(L.to_str(ex, st, pieces[i]))
        if i < len(args):
            a = args[i]
            if a.kind == 'display': out.append(L.display(ex, st, a.v))
            else: out.append(Str((('debug', a.v),)))
    return catstr(*out)
@on('new_const', 'Arguments::new_const', 'from_str', 'Arguments::from_str')
def _nc(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0])
    if isinstance(w, Str): return Adt('Arguments', None, (w,))
    return Adt('Arguments', None, (fmt(L, ex, st, [x[1] for x in L.segs(ex, st, v[0])], []),))
@on('UnsafeArg::new')
def _ua(L, ex, st, ci, v): return UNIT
@on('new_v1_formatted', 'Arguments::new_v1_formatted')
def _v1f(L, ex, st, ci, v):
    pieces = [x[1] for x in L.segs(ex, st, v[0])]
    args = [L.deref(ex, st, x[1]) for x in L.segs(ex, st, v[1])]
    ph = [L.deref(ex, st, x[1]) for x in L.segs(ex, st, v[2])]
    sel = []
    def plain(p):
        d = {n: ex.view(st, x) for (n, _), x in zip(ex.ctx.fields('Placeholder') or [(str(i), 0) for i in range(9)], p.fs)}
        return 'Implied' in str(d) and all(x in (0, 32, 0xE0000020) or 'Implied' in str(x) or k in ('position', '0') for k, x in d.items())
    for p in ph:
        pos = p.fs[0]
        a = args[pos]
        sel.append(a if plain(p) else Arg(('formatted', a, ex.view(st, p)), 'spec'))
    return Adt('Arguments', None, (fmt(L, ex, st, pieces, sel),))
# writing to a formatter: the text is appended and, when the sink accepts it, Ok is returned
@on('Formatter::write_fmt', '<Write>::write_fmt', 'Formatter::write_str', '<Write>::write_str', '<Write>::write_char', 'Formatter::write_char')
def _fwrite(L, ex, st, ci, v):
    r = v[0]
    while True:
        w = ex.resolve(st, ex.read_loc(st, (r.cell, r.path)))
        if isinstance(w, Ref): r = w
        else: break
    if not isinstance(w, Str): raise Unsupported('write to ' + show(w))
    x = ex.resolve(st, v[1])
    t = L.arguments(ex, st, v[1]) if ci['m'] == 'write_fmt' else lit(x[1]) if isinstance(x, tuple) and x and x[0] == 'chr' else L.to_str(ex, st, v[1])
    L.set(ex, st, r, catstr(w, t))
    return OK(UNIT)
@on('format', 'fmt::format', 'alloc::fmt::format')
def _format(L, ex, st, ci, v): return L.arguments(ex, st, v[0])
@on('<ToString>::to_string', 'Ident::to_string', 'String::from', '<ToOwned>::to_owned_str', 'str::to_owned', 'str::to_string')
def _tos(L, ex, st, ci, v): return L.display(ex, st, v[0])
@on('panic_fmt', 'begin_panic', 'core::panicking::panic', 'panic', 'panic_display', 'panic_str', 'unreachable_display', 'expect_failed', 'unwrap_failed', 'panic_explicit', 'assert_failed')
def _panic(L, ex, st, ci, v):
    w = ''
    try:
        x = L.deref(ex, st, v[0]) if v else ''
        w = show(x.fs[0] if isinstance(x, Adt) and x.n == 'Arguments' else x)
    except Exception: pass
    return [(st, 'panic', w)]

# ---- strings
@on('String::new', 'String::with_capacity')
def _snew(L, ex, st, ci, v): return Str(())
@on('String::push_str', 'String::push', '<AddAssign>::add_assign')
def _spush(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[0]); cur = L.get(ex, st, r)
    if isinstance(cur, Sym): cur = Str((('str', cur.t),))
    if not isinstance(cur, Str): return NotImplemented
    w = L.deref(ex, st, v[1])
    L.set(ex, st, r, catstr(cur, lit(w[1]) if isinstance(w, tuple) and w and w[0] == 'chr' else L.to_str(ex, st, w)))
    return UNIT
@on('String::insert', 'String::insert_str')
def _sins(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[0]); cur = L.get(ex, st, r)
    if isinstance(cur, Sym): cur = Str((('str', cur.t),))
    if ex.resolve(st, v[1]) != 0: raise Unsupported('insert')
    w = L.deref(ex, st, v[2])
    L.set(ex, st, r, catstr(lit(w[1]) if isinstance(w, tuple) and w and w[0] == 'chr' else L.to_str(ex, st, w), cur))
    return UNIT
@on('<Add>::add')
def _sadd(L, ex, st, ci, v): return catstr(L.to_str(ex, st, v[0]), L.to_str(ex, st, v[1]))
@on('<PartialEq>::eq', '<PartialEq>::ne')
def _eq(L, ex, st, ci, v):
    neg = ci['m'] == 'ne'
    if neg:
        fn = ex.ctx.method(base_ty(ci['ty']), 'eq')
        if fn:
            return [(s, k, (not ex.truth(s, r)) if k == 'ret' and isinstance(ex.resolve(s, r), bool) else Sym(('not', ex.resolve(s, r).t), 'bool') if k == 'ret' else r)
                    for s, k, r in ex.call_fn(st, fn, v)]
    a, b = L.deref(ex, st, v[0]), L.deref(ex, st, v[1])
    r = eqv(L, ex, st, a, b)
    if neg: return (not r) if isinstance(r, bool) else Sym(r.t[1], 'bool') if r.t[0] == 'not' else Sym(('not', r.t), 'bool')
    return r
def eqv(L, ex, st, a, b):
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)): return a == b
    if isinstance(a, Sym) and isinstance(b, bool): return a if b else Sym(('not', a.t), 'bool')
    if isinstance(b, Sym) and isinstance(a, bool): return b if a else Sym(('not', b.t), 'bool')
    strish = lambda x: isinstance(x, Str) or isinstance(x, Sym) and base_ty(x.ty) in ('String', 'str')
    if strish(a) and strish(b): return L.str_eq(ex, st, a, b)
    isid = lambda x: isinstance(x, Adt) and x.n == 'Ident' or isinstance(x, Sym) and base_ty(x.ty) == 'Ident'
    if isid(a) and (isid(b) or strish(b)):
        return L.str_eq(ex, st, L.display(ex, st, a), b if isinstance(b, Str) else L.display(ex, st, b))
    if isinstance(a, Adt) and isinstance(b, Adt) and a.n == 'Option' or isinstance(a, Sym) and base_ty(a.ty) == 'Option':
        ka, kb = ex.variant(st, a), ex.variant(st, b)
        if ka != kb: return False
        if ka == 'None': return True
        gt = lambda x: ty_args(x.ty)[0] if isinstance(x, Sym) else '?'
        return eqv(L, ex, st, L.deref(ex, st, ex.proj(st, a, ('f', 0, gt(a), 'Some'))), L.deref(ex, st, ex.proj(st, b, ('f', 0, gt(b), 'Some'))))
    en = ex.enum_of(a, st) if not isinstance(a, (Seq, Toks, Str)) else None
    fn = ex.ctx.method(en, 'eq') if en else None
    if fn:
        outs = ex.call_fn(st.fork(), fn, [a, b])
        if len(outs) == 1: return outs[0][2]
    vs = ex.ctx.variants(en) if en else None
    if vs and all(not (ex.ctx.fields(en, x)) for x in vs):
        return ex.variant(st, a) == ex.variant(st, b)
    a, b = ex.view(st, a), ex.view(st, b)
    if a == b: return True
    return Sym(('eq', a, b), 'bool')

# ---- Box / vec!
@on('exchange_malloc', 'alloc::alloc::exchange_malloc', 'box_new', 'Box::new_uninit', 'box_new_uninit')
def _malloc(L, ex, st, ci, v): return ex.new_cell(st, Poison('uninitialised box'))
@on('Box::new', 'Rc::new', 'Box::into_inner', 'Box::leak')
def _box(L, ex, st, ci, v): return v[0]
@on('into_vec', 'slice::into_vec', 'Box::assume_init', 'box_assume_init_into_vec_unsafe')
def _intovec(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0])
    return Seq(L.segs(ex, st, w))
@on('Vec::new', 'Vec::with_capacity', 'Vec::default', 'Punctuated::new', 'Punctuated::default')
def _vnew(L, ex, st, ci, v): return Seq(())
@on('Vec::push', 'Punctuated::push', 'Punctuated::push_value')
def _vpush(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[0]); cur = L.get(ex, st, r)
    if isinstance(cur, Poison): raise Unsupported(cur.why)
    L.set(ex, st, r, Seq(L.segs(ex, st, cur) + (('e', v[1]),)))
    return UNIT
@on('Vec::insert')
def _vins(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[0]); cur = L.get(ex, st, r)
    if ex.resolve(st, v[1]) != 0: raise Unsupported('Vec::insert')
    L.set(ex, st, r, Seq((('e', v[2]),) + L.segs(ex, st, cur)))
    return UNIT
@on('Vec::append')
def _vapp(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[0]); q = L.lastref(ex, st, v[1])
    L.set(ex, st, r, Seq(L.segs(ex, st, L.get(ex, st, r)) + L.segs(ex, st, L.get(ex, st, q)))); L.set(ex, st, q, Seq(()))
    return UNIT
@on('Vec::reverse', 'slice::reverse', '<impl>::reverse')
def _vrev(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[0]); segs = L.segs(ex, st, L.get(ex, st, r))
    if any(s[0] != 'e' for s in segs):
        L.set(ex, st, r, Seq((('all', ('reversed', Seq(segs)), segs[0][2] if segs[0][0] == 'all' else '?'),)))
    else: L.set(ex, st, r, Seq(tuple(reversed(segs))))
    return UNIT
@on('<Iterator>::rev', 'rev')
def _rev(L, ex, st, ci, v):
    segs = L.segs(ex, st, v[0])
    if any(s[0] != 'e' for s in segs): return Iter((('all', ('reversed', Seq(segs)), segs[0][2] if segs[0][0] == 'all' else '?'),))
    return Iter(tuple(reversed(segs)))
@on('Vec::clear', 'Vec::truncate')
def _vclear(L, ex, st, ci, v):
    if ci['m'] == 'truncate': return NotImplemented
    r = L.lastref(ex, st, v[0]); L.set(ex, st, r, Seq(())); return UNIT
@on('Vec::reserve', 'Vec::shrink_to_fit', 'String::reserve')
def _vres(L, ex, st, ci, v): return UNIT
@on('Vec::drain')
def _drain(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[0]); segs = L.segs(ex, st, L.get(ex, st, r))
    w = L.deref(ex, st, v[1])
    if not (isinstance(w, Adt) and w.n == 'RangeFull') and not isinstance(w, FnItem): raise Unsupported('drain range')
    L.set(ex, st, r, Seq(()))
    return Iter(segs)
@on('Vec::is_empty', 'Punctuated::is_empty', 'slice::is_empty', '<impl>::is_empty', 'is_empty')
def _vempty(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0])
    if isinstance(w, Str):
        if any(isinstance(p, str) and p for p in w.parts): return False
        if not w.parts: return True
        if len(w.parts) == 1 and w.parts[0][0] == 'str': return Sym(('streq', w.parts[0], ''), 'bool')
        raise Unsupported('is_empty of string')
    if isinstance(w, Toks): return _tsempty(L, ex, st, ci, v)
    return L.is_empty(ex, st, Seq(L.segs(ex, st, w)))
@on('Vec::len', 'Punctuated::len', 'slice::len')
def _vlen(L, ex, st, ci, v): return L.seq_len(ex, st, v[0])
@on('<IntoIterator>::into_iter', 'Vec::iter', 'Punctuated::iter', 'iter', 'Vec::into_iter', 'into_iter', 'slice::iter')
def _iter(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0])
    if isinstance(w, Iter): return v[0] if isinstance(v[0], Ref) and False else w
    if isinstance(w, Adt) and ex.ctx.method(w.n, 'next'): return w
    if isinstance(w, Adt) and w.n in ('Option',): return Iter(() if w.v == 'None' else (('e', w.fs[0]),))
    if isinstance(w, Sym) and base_ty(w.ty) == 'Option':
        return Iter(() if ex.variant(st, w) == 'None' else (('e', ex.proj(st, w, ('f', 0, ty_args(w.ty)[0], 'Some'))),))
    if isinstance(w, Sym) and base_ty(w.ty) == 'TokenStream': return Iter((('all', ('trees', w.t), 'TokenTree'),))
    if isinstance(w, Toks): raise Unsupported('iterate known tokens')
    return Iter(L.segs(ex, st, w))
@on('iter_mut', 'Vec::iter_mut', 'slice::iter_mut')
def _itermut(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0])
    segs = L.segs(ex, st, w)
    # elements that are themselves (tuples of) references
    if all(s[0] == 'e' for s in segs): return Iter(segs)
    r = L.lastref(ex, st, v[0])
    if isinstance(w, Sym) and len(segs) == 1 and segs[0][0] == 'all' and base_ty(segs[0][2]) == 'GenericParam' and isinstance(w.t, tuple) and w.t[0] == 'f' and r.path:
        # the parameters of a `Generics`: as type_params_mut, when only type parameters are changed
        up = (r.cell, r.path[:-1]); g = ex.resolve(st, ex.read_loc(st, up))
        if isinstance(g, Sym) and base_ty(g.ty) == 'Generics':
            c = ex.new_cell(st, Sym(('elem', w.t), 'GenericParam'))
            return Iter((('mutall', w.t, 'GenericParam', c.cell, up, g.t),))
    raise Unsupported('iter_mut over unknown elements')
@on('<Iterator>::next', 'next')
def _next(L, ex, st, ci, v): return L.next(ex, st, v[0])
@on('<Iterator>::by_ref', 'by_ref', '<Iterator>::fuse', '<Iterator>::peekable')
def _byref(L, ex, st, ci, v): return v[0]
@on('<Iterator>::cloned', '<Iterator>::copied')
def _itcl(L, ex, st, ci, v): return L.deref(ex, st, v[0])
@on('Punctuated::first', 'Vec::first', 'slice::first', 'first')
def _first(L, ex, st, ci, v): return endof(L, ex, st, v[0], 0)
@on('Punctuated::last', 'Vec::last', 'slice::last', 'last')
def _last(L, ex, st, ci, v): return endof(L, ex, st, v[0], -1)
def endof(L, ex, st, x, k):
    segs = L.segs(ex, st, x)
    if not segs: return NONE()
    s = segs[k]
    if s[0] == 'e': return SOME(s[1])
    if len(segs) == 1 and s[0] == 'all':
        if ex.truth(st, Sym(('empty', s[1]), 'bool')): return NONE()
        return SOME(Sym(('lastof', s[1]) if k else ('idx', s[1], 0), s[2]))
    raise Unsupported('first/last')

def opt(ex, st, v):
    """-> (variant, payload)"""
    k = ex.variant(st, v)
    if k in ('None',): return k, None
    w = v
    while isinstance(w, Ref): w = ex.read_loc(st, (w.cell, w.path)); w = ex.resolve(st, w)
    w = ex.resolve(st, w)
    i = 0
    t = '?'
    if isinstance(w, Sym):
        a = ty_args(w.ty)
        t = a[1] if k == 'Err' and len(a) > 1 else a[0] if a else 'DarlingError' if k == 'Err' else '?'
        if k == 'Break': t = '?'
    return k, ex.proj(st, w, ('f', 0, t, k))

def after(ex, outs, f):
    return [(s, k, f(s, r) if k == 'ret' else r) for s, k, r in outs]

@on('Option::as_ref', 'Option::as_mut', 'Result::as_ref', 'Option::as_deref_mut', 'Option::as_slice')
def _asref(L, ex, st, ci, v):
    w = ex.resolve(st, v[0])
    if ci['m'] in ('as_mut', 'as_deref_mut'):
        r = L.lastref(ex, st, w)
        k = ex.variant(st, r)
        if k == 'None': return NONE()
        return SOME(Ref(r.cell, r.path + (('f', 0, '?', 'Some'),)))
    x = L.deref(ex, st, w)
    if isinstance(x, Adt):
        return Adt(x.n, x.v, tuple(x.fs))
    return x
@on('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def _isv(L, ex, st, ci, v):
    k = ex.variant(st, v[0])
    return {'is_some': k == 'Some', 'is_none': k == 'None', 'is_ok': k == 'Ok', 'is_err': k == 'Err'}[ci['m']]
@on('Option::is_some_and', 'Option::is_none_or')
def _isa(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    if k == 'None': return ci['m'] == 'is_none_or'
    return ex.call_value(st, v[1], [x])
@on('Option::unwrap', 'Option::expect', 'Result::unwrap', 'Result::expect')
def _unw(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    if k in ('Some', 'Ok'): return x
    raise Diverge('%s on %s' % (ci['m'], k))
@on('Option::unwrap_or', 'Result::unwrap_or')
def _uo(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    return x if k in ('Some', 'Ok') else v[1]
@on('Option::unwrap_or_else', 'Result::unwrap_or_else')
def _uoe(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    if k in ('Some', 'Ok'): return x
    return ex.call_value(st, v[1], [] if k == 'None' else [x])
@on('Option::unwrap_or_default', 'Result::unwrap_or_default')
def _uod(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    if k in ('Some', 'Ok'): return x
    return default(L, ex, st, (ty_args(ci['ty']) or re.findall(r'<(.*)>', ci['raw']))[0])
@on('<Default>::default', 'default')
def _def(L, ex, st, ci, v): return default(L, ex, st, ci['ty'] or ci['dty'])
def default(L, ex, st, t):
    b = base_ty(t)
    fn = ex.ctx.method(b, 'default')
    if fn: return ex.call_fn(st, fn, [])
    if b == 'bool': return False
    if b == 'Option': return NONE()
    if b in ('Vec', 'Punctuated'): return Seq(())
    if b in ('String', 'str'): return Str(())
    if b == 'TokenStream': return Toks(())
    if b in ('usize', 'u32', 'i32'): return 0
    if b == 'Generics': return Adt('Generics', None, (NONE(), Seq(()), NONE(), NONE()))
    if b == 'Flag': return Sym(('absent',), 'Flag')
    if b == 'PathList': return Adt('PathList', None, (Seq(()),))
    if b in ('()', 'Pub'): return UNIT
    raise Unsupported('default of ' + t)
@on('Option::or')
def _or(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    return SOME(x) if k == 'Some' else v[1]
@on('Option::and')
def _and(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    return NONE() if k == 'None' else v[1]
@on('Option::xor')
def _xor(L, ex, st, ci, v):
    (a, x), (b, y) = opt(ex, st, v[0]), opt(ex, st, v[1])
    return SOME(x) if a == 'Some' and b == 'None' else SOME(y) if b == 'Some' and a == 'None' else NONE()
@on('Option::or_else')
def _ore(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    return SOME(x) if k == 'Some' else ex.call_value(st, v[1], [])
@on('Option::and_then', 'Result::and_then')
def _at(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    if k == 'None': return NONE()
    if k == 'Err': return ERR(x)
    return ex.call_value(st, v[1], [x])
@on('Option::map')
def _map(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    if k == 'None': return NONE()
    return after(ex, ex.call_value(st, v[1], [x]), lambda s, r: SOME(r))
@on('Result::map')
def _rmap(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    if k == 'Err': return ERR(x)
    return after(ex, ex.call_value(st, v[1], [x]), lambda s, r: OK(r))
@on('Result::map_err')
def _rmape(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    if k == 'Ok': return OK(x)
    return after(ex, ex.call_value(st, v[1], [x]), lambda s, r: ERR(r))
@on('Option::map_or', 'Result::map_or')
def _mapor(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    if k in ('None', 'Err'): return v[1]
    return ex.call_value(st, v[2], [x])
@on('Option::map_or_else', 'Result::map_or_else')
def _mapore(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    if k in ('None', 'Err'): return ex.call_value(st, v[1], [] if k == 'None' else [x])
    return ex.call_value(st, v[2], [x])
@on('Option::filter')
def _filt(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    if k == 'None': return NONE()
    res = []
    for s, kd, r in ex.call_value(st, v[1], [x]):
        if kd != 'ret': res.append((s, kd, r)); continue
        r = ex.resolve(s, r)
        if isinstance(r, bool): res.append((s, 'ret', SOME(x) if r else NONE())); continue
        for b in (True, False):
            s2 = s.fork()
            if add_lit(ex.ctx, s2.pc, (r.t, '=', b)): res.append((s2, 'ret', SOME(x) if b else NONE()))
    return res
@on('Option::ok_or')
def _okor(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    return OK(x) if k == 'Some' else ERR(v[1])
@on('Option::ok_or_else')
def _okore(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    if k == 'Some': return OK(x)
    return after(ex, ex.call_value(st, v[1], []), lambda s, r: ERR(r))
@on('Result::ok')
def _rok(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    return SOME(x) if k == 'Ok' else NONE()
@on('Result::err')
def _rerr(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    return SOME(x) if k == 'Err' else NONE()
@on('Option::take')
def _take(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[0]); w = L.get(ex, st, r); L.set(ex, st, r, NONE()); return w
@on('Option::replace', 'replace', 'Option::insert')
def _repl(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[0]); w = L.get(ex, st, r)
    if ci['m'] == 'replace' and ci['ty'] and base_ty(ci['ty']) == 'Option': L.set(ex, st, r, SOME(v[1])); return w
    if ci['m'] == 'replace': L.set(ex, st, r, v[1]); return w
    L.set(ex, st, r, SOME(v[1]))
    return Ref(r.cell, r.path + (('f', 0, ty_args(w.ty)[0] if isinstance(w, Sym) and ty_args(w.ty) else '?', 'Some'),))
@on('take')
def _mtake(L, ex, st, ci, v):
    if len(v) != 1: return NotImplemented
    r = L.lastref(ex, st, v[0]); w = L.get(ex, st, r)
    d = default(L, ex, st, re.sub(r'^<(.*)>$', r'\1', ci['gen']))
    if isinstance(d, list): raise Unsupported('mem::take')
    L.set(ex, st, r, d); return w
@on('Option::zip')
def _zip(L, ex, st, ci, v):
    (a, x), (b, y) = opt(ex, st, v[0]), opt(ex, st, v[1])
    return SOME(tup(x, y)) if a == b == 'Some' else NONE()
@on('Option::flatten')
def _flat(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    return NONE() if k == 'None' else x
@on('<Try>::branch')
def _branch(L, ex, st, ci, v):
    k, x = opt(ex, st, v[0])
    if k in ('Ok', 'Some'): return Adt('ControlFlow', 'Continue', (x,))
    return Adt('ControlFlow', 'Break', (ERR(x) if k == 'Err' else NONE(),))
@on('<FromResidual>::from_residual')
def _resid(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0])
    if w.n == 'Option': return NONE()
    return ERR(conv_err(ex, st, ci, w.fs[0]))
def conv_err(ex, st, ci, e):
    # darling::Error: From<syn::Error> keeps the error
    return e
@on('<Try>::from_output')
def _fromout(L, ex, st, ci, v):
    return OK(v[0]) if base_ty(ci['ty']) == 'Result' else SOME(v[0])

# ---- conversions
@on('<Into>::into', '<From>::from', 'into', '<TryInto>::try_into', '<TryFrom>::try_from')
def _into(L, ex, st, ci, v):
    src = L.deref(ex, st, v[0])
    t = None
    if ci['m'] in ('into', 'try_into'): t = ty_args(ci['trait'])[0] if ci['trait'] and ty_args(ci['trait']) else None
    else: t = ci['ty']
    sty = ci['ty'] if ci['m'] in ('into', 'try_into') else (ty_args(ci['trait'])[0] if ci['trait'] and ty_args(ci['trait']) else None)
    if t is None: raise Unsupported('conversion ' + ci['raw'])
    b = base_ty(t)
    if sty and norm_ty(sty) == norm_ty(t): return v[0]
    want = 'from' if ci['m'] in ('into', 'from') else 'try_from'
    fn = ex.ctx.method(b, want, '%s<%s>' % ('From' if want == 'from' else 'TryFrom', sty)) if ex.ctx.by_key.get((b, want)) else None
    if fn: return ex.call_fn(st, fn, [v[0]])
    if b == 'TokenStream' and sty and base_ty(sty) == 'TokenStream': return v[0]
    if b == 'Path': return Adt('Parsed', None, (Toks(L.items(ex, st, src)),))
    if b == 'Option': return SOME(v[0])
    if b == 'String': return L.to_str(ex, st, src)
    if b in ('DarlingError', 'Error'): return src
    if b == 'TokenTree' and sty and base_ty(sty) in ('Group', 'Ident', 'Punct', 'Literal'): return Adt('TokenTree', base_ty(sty), (v[0],))
    if b == 'Cow': return Adt('Cow', 'Owned', (v[0],))
    if b == 'Box': return v[0]
    raise Unsupported('conversion ' + ci['raw'])

# ---- iterator adapters
def boolean(ex):
    return lambda s, r: ex.truth(s, r)
@on('<Iterator>::any', '<Iterator>::all', 'any', 'all')
def _any(L, ex, st, ci, v):
    neg = ci['m'] == 'all'
    terms = []
    for seg, outs in L.iter_outcomes(ex, st, v[0], L.callf(ex, v[1], boolean(ex))):
        if seg[0] == 'e':
            # concrete element: decide now
            c = Cases(tuple((g, r) for g, r, _ in outs)) if len(outs) > 1 else outs[0][1]
            b = ex.resolve(st, c)
            if b != neg: return not neg if False else (b)
            continue
        cs = [(g, False if r is GONE else (not r) if neg else r) for g, r, _ in outs]
        if all(not r for _, r in cs): continue
        if all(r for _, r in cs): terms.append(('not', ('empty', seg[1])))
        else: terms.append(L.any_term(ex, st, seg[1], cs))
    if not terms: return neg
    t = terms[0]
    for x in terms[1:]: t = ('or', t, x)
    return Sym(('not', t), 'bool') if neg else Sym(t, 'bool')
@on('<Iterator>::find', '<Iterator>::position', '<Iterator>::find_map')
def _find(L, ex, st, ci, v):
    it = L.deref(ex, st, v[0])
    segs = L.segs(ex, st, it)
    if any(s[0] != 'e' for s in segs): raise Unsupported(ci['m'] + ' over unknown elements')
    res, cur = [], [st]
    conv = boolean(ex)
    if ci['m'] == 'find_map':
        def conv(s, r):
            k, x = opt(ex, s, r)
            return SOME(x) if k == 'Some' else False
    for i, s in enumerate(segs):
        nxt = []
        for c in cur:
            for s2, b in L.callf(ex, v[1], conv)(c.fork(), s[1]):
                if b is False: nxt.append(s2)
                else: res.append((s2, 'ret', b if ci['m'] == 'find_map' else SOME(s[1]) if ci['m'] == 'find' else SOME(i)))
        cur = nxt
    res += [(c, 'ret', NONE()) for c in cur]
    return res
@on('<Iterator>::map')
def _itmap(L, ex, st, ci, v): return itmap(L, ex, st, v, lambda s, r: (('e', ex.view(s, r)),))
@on('<Iterator>::filter')
def _itfilter(L, ex, st, ci, v):
    def run(s, el):
        return [(s2, (('e', ex.view(s2, el)),) if b else ()) for s2, b in L.callf(ex, v[1], boolean(ex))(s, el)]
    return itcases(L, ex, st, v[0], run)
@on('<Iterator>::filter_map')
def _itfm(L, ex, st, ci, v):
    def conv(s, r):
        k, x = opt(ex, s, r)
        return () if k == 'None' else (('e', ex.view(s, x)),)
    return itcases(L, ex, st, v[0], L.callf(ex, v[1], conv))
def itmap(L, ex, st, v, conv):
    return itcases(L, ex, st, v[0], L.callf(ex, v[1], conv))
def itcases(L, ex, st, it, run):
    out = []
    for seg, outs in L.iter_outcomes(ex, st, it, run):
        cs = tuple((g, () if r is GONE else r) for g, r, _ in outs)
        if seg[0] == 'e':
            r = ex.resolve(st, Cases(cs) if len(cs) > 1 else cs[0][1])
            out += list(r)
        else:
            if any(x and x[0] not in ('e',) for _, b in cs for x in b): raise Unsupported('nested map')
            out.append(('map', seg[1], canon(ex.ctx, st.pc, cs)))
    return Iter(tuple(out))
@on('<Iterator>::chain')
def _chain(L, ex, st, ci, v): return Iter(L.segs(ex, st, _iter(L, ex, st, ci, [v[0]])) + L.segs(ex, st, _iter(L, ex, st, ci, [v[1]])))
@on('<Iterator>::collect', '<FromIterator>::from_iter', 'from_iter', 'collect')
def _collect(L, ex, st, ci, v):
    t = base_ty(re.sub(r'^<(.*)>$', r'\1', ci['gen'])) if ci['m'] == 'collect' else base_ty(ci['ty'])
    w = L.deref(ex, st, v[0])
    segs = w.segs if isinstance(w, (Seq, Iter)) else L.segs(ex, st, w)
    if t in ('Vec', 'Punctuated'): return Seq(segs)
    if t == 'TokenStream': return Toks(regroup(L.flat(ex, st, Seq(segs))))
    raise Unsupported('collect into ' + t)
def regroup(items): return items
@on('<Iterator>::fold', 'fold')
def _fold(L, ex, st, ci, v):
    segs = L.segs(ex, st, v[0])
    acc = v[1]
    for seg in segs:
        if seg[0] == 'e':
            s2, acc = ex.call1(st, v[2], [acc, seg[1]])
            if s2 is not st: st.heap.update(s2.heap)
            continue
        if seg[0] != 'all': raise Unsupported('fold')
        kind = 'str' if isinstance(acc, Str) else 'seq' if isinstance(acc, Seq) else 'toks' if isinstance(acc, Toks) else None
        if kind is None: raise Unsupported('fold accumulator')
        outs = ex.call_value(st.fork(), v[2], [ex.acc(kind, 0, acc), L.element(ex, st, seg)])
        cases = tuple((lits_of(s.pc, st.pc), ex.delta(kind, 0, ex.resolve(s, r), s)) for s, k, r in outs)
        acc = ex.plus(kind, acc, seg[1], canon(ex.ctx, st.pc, cases))
    return [(st, 'ret', acc)]

# ---- proc_macro2 trees
@on('Group::delimiter')
def _gd(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0])
    return Sym(('delim', w.t), 'Delimiter') if isinstance(w, Sym) else ('delimv', w.v)
@on('Group::stream')
def _gs(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0])
    return Sym(('stream', w.t), 'TokenStream') if isinstance(w, Sym) else w.fs[0]
@on('Group::new')
def _gn(L, ex, st, ci, v):
    d = ex.resolve(st, v[0]); w = L.deref(ex, st, v[1])
    # regrouping the same contents under the same delimiter is the same group
    if isinstance(d, Sym) and d.t[0] == 'delim' and w == Sym(('stream', d.t[1]), 'TokenStream'): return Sym(d.t[1], 'Group')
    return Adt('Group', DELIM[d.v] if isinstance(d, Adt) else d, (Toks(L.items(ex, st, w)),))

# ---- syn
@on('Generics::split_for_impl')
def _sfi(L, ex, st, ci, v):
    g = ex.resolve(st, ex.view(st, v[0]))
    return tup(Adt('ImplGenerics', None, (g,)), Adt('TypeGenerics', None, (g,)), wc(ex, st, g))
def wc(ex, st, g):
    if isinstance(g, Sym): return Sym(('f', g.t, 'where_clause'), 'Option<&WhereClause>')
    if isinstance(g, Adt) and g.n == 'MapParams': return wc(ex, st, g.fs[0])
    return g.fs[3]
@on('Generics::type_params')
def _tps(L, ex, st, ci, v):
    g = ex.view(st, v[0])
    if isinstance(g, Sym): return Iter((('all', ('typarams', g.t), 'TypeParam'),))
    raise Unsupported('type_params of %s' % show(g))
@on('Generics::type_params_mut')
def _tpm(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[0]); g = L.get(ex, st, r)
    if not isinstance(g, Sym): raise Unsupported('type_params_mut of %s' % show(g))
    seqt = ('typarams', g.t)
    c = ex.new_cell(st, Sym(('elem', seqt), 'TypeParam'))
    return Iter((('mutall', seqt, 'TypeParam', c.cell, (r.cell, r.path)),))
@on('Path::is_ident')
def _isid(L, ex, st, ci, v):
    p = L.deref(ex, st, v[0]); s = L.deref(ex, st, v[1])
    if isinstance(s, Adt) and s.n == 'Ident': s = s.fs[0]
    s = L.to_str(ex, st, s)
    if isinstance(p, Sym) and all(isinstance(x, str) for x in s.parts):
        return Sym(('streq', ('pathident', p.t), ''.join(s.parts)), 'bool')
    raise Unsupported('is_ident')
@on('Path::get_ident')
def _getid(L, ex, st, ci, v):
    p = L.deref(ex, st, v[0])
    return Sym(('get_ident', p.t), 'Option<&Ident>')
@on('Attribute::path', 'Meta::path')
def _apath(L, ex, st, ci, v):
    a = L.deref(ex, st, v[0])
    if isinstance(a, Sym): return Sym(('path', a.t[1] if a.t[0] == 'f' and a.t[2] == 'meta' else a.t), 'Path')
    raise Unsupported('Attribute::path of %s' % show(a))
@on('Pair::into_value', 'Pair::value')
def _pv(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0])
    return w.fs[0]
@on('LitStr::value')
def _lsv(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0]); return Str((('strvalue', w.t),))
@on('LitStr::new')
def _lsn(L, ex, st, ci, v): return Adt('LitStr', None, (L.to_str(ex, st, v[0]),))
@on('LitStr::parse')
def _lsp(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0])
    t = re.sub(r'^<(.*)>$', r'\1', ci['gen']) or '?'
    if t == '?' or not t: t = ty_args(ci['dty'])[0]
    return Sym(('parsed', base_ty(t), codetext(w.fs[0]) if isinstance(w, Adt) else Str((('strvalue', w.t),))), 'Result<%s, Error>' % norm_ty(t))
def codetext(s):
    """white space around an unknown text means nothing to the parser, except whether a line break follows it (a line comment may end it)"""
    ps = list(s.parts)
    if len(ps) > 1 and isinstance(ps[0], str): ps[0] = ps[0].rstrip()
    if len(ps) > 1 and isinstance(ps[-1], str):
        b = ps[-1].lstrip(); w = ps[-1][:len(ps[-1]) - len(b)]
        ps[-1] = ('\n' if '\n' in w else '') + b
    return Str(tuple(p for p in ps if p != ''))
@on('Pub', 'syn::token::Pub', 'token::Pub')
def _pubtok(L, ex, st, ci, v): return UNIT
@on('syn::token::Brace', 'token::Brace', 'Brace', 'Paren', 'Bracket', 'syn::token::Paren')
def _brace(L, ex, st, ci, v): return UNIT
@on('Error::new_spanned', 'Error::new')
def _serr(L, ex, st, ci, v): return Adt('CompileError', None, (ex.view(st, v[1]),))
@on('Error::to_compile_error', 'Error::into_compile_error')
def _sce(L, ex, st, ci, v): return Toks((('h', L.deref(ex, st, v[0])),))

# ---- darling
@on('Flag::is_present')
def _fp(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0])
    if isinstance(w, Sym):
        if w.t == ('absent',): return False
        return Sym(('present', w.t), 'bool')
    raise Unsupported('Flag')
@on('Data::as_ref')
def _dar(L, ex, st, ci, v): return v[0]
@on('Data::take_struct')
def _dts(L, ex, st, ci, v):
    w = L.deref(ex, st, v[0])
    k = ex.variant(st, w, 'Data')
    if k != 'Struct': return NONE()
    fs = ty_args(w.ty)[1]
    return SOME(Sym(('f', w.t, 'Struct.0'), 'Fields<%s>' % fs))
@on('Error::accumulator', 'DarlingError::accumulator', 'Accumulator::default')
def _acc(L, ex, st, ci, v): return Acc(Seq(()))
@on('Accumulator::push')
def _accp(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[0]); a = L.get(ex, st, r)
    L.set(ex, st, r, Acc(Seq(a.errs.segs + (('e', ex.view(st, v[1])),)))); return UNIT
@on('Accumulator::handle')
def _acch(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[0]); a = L.get(ex, st, r)
    k, x = opt(ex, st, v[1])
    if k == 'Ok': return SOME(x)
    L.set(ex, st, r, Acc(Seq(a.errs.segs + (('e', ex.view(st, x)),)))); return NONE()
@on('Accumulator::finish', 'Accumulator::finish_with')
def _accf(L, ex, st, ci, v):
    a = L.deref(ex, st, v[0])
    if ex.truth(st, L.is_empty(ex, st, a.errs)): return OK(v[1] if len(v) > 1 else UNIT)
    return ERR(errors_of(a.errs))
def errors_of(seq):
    """darling::Error::multiple: one error stands for itself"""
    if len(seq.segs) == 1 and seq.segs[0][0] == 'e': return seq.segs[0][1]
    return Adt('DarlingError', 'multiple', (seq,))
@on('DarlingError::multiple', 'Error::multiple')
def _em(L, ex, st, ci, v): return errors_of(ex.view(st, L.deref(ex, st, v[0])))
@on('DarlingError::custom', 'DarlingError::unsupported_format', 'DarlingError::unknown_value', 'DarlingError::unexpected_lit_type', 'DarlingError::unexpected_type',
    'Error::custom', 'Error::unsupported_format', 'Error::unknown_value', 'Error::unexpected_lit_type', 'DarlingError::unknown_field', 'DarlingError::unsupported_shape',
    'DarlingError::missing_field', 'DarlingError::duplicate_field', 'DarlingError::too_few_items', 'DarlingError::too_many_items', 'DarlingError::unexpected_expr_type')
def _ec(L, ex, st, ci, v): return Adt('DarlingError', ci['m'], (ex.view(st, v[0]),) if v else ())
@on('DarlingError::with_span', 'Error::with_span', 'DarlingError::at', 'DarlingError::at_path', 'Error::at')
def _ews(L, ex, st, ci, v): return v[0]
@on('DarlingError::write_errors', 'Error::write_errors')
def _ewe(L, ex, st, ci, v): return Toks((('errors', ex.view(st, v[0])),))
@on('<FromMeta>::from_meta', '<FromMeta>::from_expr', '<FromMeta>::from_value', '<FromMeta>::from_list', '<FromMeta>::from_string', '<FromMeta>::from_word', 'from_meta', 'from_expr')
def _fm(L, ex, st, ci, v):
    if ci['ty'] is None: return NotImplemented
    t = norm_ty(ci['ty'])
    return Sym((ci['m'], t) + tuple(ex.view(st, x) for x in v), 'Result<%s, DarlingError>' % t)
@on('<FromDeriveInput>::from_derive_input', '<FromField>::from_field')
def _fdi(L, ex, st, ci, v):
    t = norm_ty(ci['ty'])
    return Sym((ci['m'], t) + tuple(ex.view(st, x) for x in v), 'Result<%s, DarlingError>' % t)
@on('<Fn>::call', '<FnMut>::call_mut', '<FnOnce>::call_once')
def _fncall(L, ex, st, ci, v):
    a = ex.resolve(st, v[1])
    return ex.call_value(st, v[0], list(a.fs))
@on('drop', 'forget', 'drop_in_place')
def _drop(L, ex, st, ci, v): return UNIT
@on('swap')
def _swap(L, ex, st, ci, v):
    a, b = L.lastref(ex, st, v[0]), L.lastref(ex, st, v[1])
    x, y = L.get(ex, st, a), L.get(ex, st, b)
    L.set(ex, st, a, y); L.set(ex, st, b, x); return UNIT

import lib2        # more library contracts
