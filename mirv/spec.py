"""The specification language: specifications are functions of a contract's arguments, evaluated over
the same symbolic values as the code, and may branch (each branch becomes a guarded case)."""
import re
from values import *
from mirparse import Unsupported, base_ty, ty_args
from ex import Fork, Diverge, State, add_lit, lits_of, consistent
from lib import lex, parsed, catstr, ident_of, puncts
from canon import canon

class Panic(Exception):
    pass

def record_of(ex, v):
    """the contract a record-valued application comes from"""
    if isinstance(v.t, tuple) and v.t[0] == 'app':
        c = getattr(ex, 'contracts', {}).get(v.t[1])
        if c is not None and getattr(c, 'record', None): return c
    return None

def strip_ref(t):
    while t.startswith('&'): t = re.sub(r"^&('\w+ )?(mut )?", '', t)
    return t

def labels(l):
    return frozenset(l.split()) if isinstance(l, str) else frozenset(l)

class LT:
    """labelled token stream: list of (labels, item); a group item is ('G', delim, LT)"""
    def __init__(self, xs=()): self.xs = list(xs)
    def __add__(self, o): return LT(self.xs + o.xs)
    def plain(self):
        out = []
        for l, it in self.xs:
            if it[0] == 'G': out.append(('g', it[1], it[2].plain()))
            else: out.append(it)
        return tuple(out)

def lab(label, items):
    """label every token of plain items"""
    return LT([(labels(label), ('G', it[1], lab(label, it[2])) if it[0] == 'g' else it) for it in items])

class S:
    def __init__(self, ex, st): self.ex, self.st, self.L = ex, st, ex.lib

    def deref(self, v):
        v = self.L.deref(self.ex, self.st, v)
        if isinstance(v, Sym):
            t = strip_ref(v.ty)
            return Sym(v.t, ty_args(t)[0] if base_ty(t) == 'Box' and ty_args(t) else t)
        return v
    def get(self, v, path):
        for n in path.split('.'):
            v = self.deref(v)
            if isinstance(v, Adt):
                fs = self.ex.ctx.fields(v.n, v.v)
                if fs is None or all(f != n for f, _ in fs): raise Unsupported('no field %s in %s' % (n, v.n))
                i = [k for k, (f, _) in enumerate(fs)].index(next(k for k, (f, _) in enumerate(fs) if f == n))
                v = v.fs[i]
            elif isinstance(v, Sym):
                r = record_of(self.ex, v)
                if r is not None:
                    d = r.spec(self, *v.t[2:])
                    if n in d:
                        v = d[n][1](self); continue
                fs = self.ex.ctx.fields(base_ty(v.ty))
                ty = None
                for f, t in fs or ():
                    if f == n: ty = t
                if ty is None: raise Unsupported('no field %s in %s' % (n, v.ty))
                v = Sym(('f', v.t, n), ty)
            else: raise Unsupported('get %s of %s' % (n, show(v)))
        return v
    def variant(self, v): return self.ex.variant(self.st, self.deref(v))
    def payload(self, v, variant, i=0, ty=None):
        v = self.deref(v)
        if isinstance(v, Sym):
            if ty is None:
                b = base_ty(v.ty)
                if b == 'Option': ty = ty_args(v.ty)[0]
                elif b == 'Result': ty = ty_args(v.ty)[0 if variant == 'Ok' else 1]
                else:
                    fs = self.ex.ctx.fields(b, variant)
                    if fs is None or i >= len(fs): raise Unsupported('no variant %s in %s' % (variant, b))
                    ty = fs[i][1]
        return self.ex.proj(self.st, v, ('f', i, ty or '?', variant))
    def opt(self, v):
        """the payload, or None"""
        return self.payload(v, 'Some') if self.variant(v) == 'Some' else None
    def truth(self, v): return self.ex.truth(self.st, v)
    def toks(self, v): return self.L.items(self.ex, self.st, v)
    def flat(self, v):
        v = self.deref(v)
        return self.L.flat(self.ex, self.st, v)
    def display(self, v): return self.L.display(self.ex, self.st, v)
    def T(self, label, src, **holes):
        """template: $name is a hole holding a labelled stream or a value"""
        return self._t(labels(label), lex(src), holes)
    def _t(self, label, items, holes):
        out, i = [], 0
        while i < len(items):
            it = items[i]
            if it == ('p', '$') and i + 1 < len(items) and items[i+1][0] == 'i' and items[i+1][1] in holes:
                h = holes[items[i+1][1]]
                if isinstance(h, LT): out += h.xs
                else: out += lab(label, h if isinstance(h, tuple) and not hasattr(h, '_fields') else self.toks(h)).xs
                i += 2; continue
            if it[0] == 'g': out.append((label, ('G', it[1], self._t(label, it[2], holes))))
            else: out.append((label, it))
            i += 1
        return LT(out)
    def cases(self, th):
        """a specification branch by branch as one value"""
        cs = tuple((lits_of(s.pc, self.st.pc), self.ex.view(s, v)) for s, k, v in leaves(self.ex, self.st, th) if k == 'ret')
        return cs[0][1] if len(cs) == 1 and cs[0][0] == () else Cases(cs)
    def mapped(self, seqt, elty, f):
        """the list obtained by running f (-> tuple of segments) on every element"""
        el = Sym(('elem', seqt), elty)
        cs = [(lits_of(s.pc, self.st.pc), tuple(v)) for s, k, v in leaves(self.ex, self.st, lambda S: f(S, el))]
        return Seq((('map', seqt, canon(self.ex.ctx, self.st.pc, tuple(cs))),))
    def any(self, seqt, elty, f):
        el = Sym(('elem', seqt), elty)
        cs = [(lits_of(s.pc, self.st.pc), bool(v)) for s, k, v in leaves(self.ex, self.st, lambda S: f(S, el))]
        return self.truth(Sym(self.L.any_term(self.ex, self.st, seqt, cs), 'bool'))
    def app(self, key, ty, *args):
        return Sym(('app', key) + tuple(self.ex.view(self.st, a) for a in args), ty)

    def use(self, key, *args):
        """the result of a contracted function: opaque while the function exists, else its specification"""
        c = self.ex.active.get(key) or self.ex.contracts.get(key)
        if c.opaque and self.ex.exists(c): return self.app(key, c.opaque, *args)
        return c.spec(self, *args)

def leaves(ex, st, fun, limit=20000):
    """evaluate fun(S) on every branch -> [(state, kind, value)]"""
    out, work = [], [st]
    while work:
        s = work.pop()
        try:
            s1 = s.fork()
            v = fun(S(ex, s1))
            out.append((s1, 'ret', v))
        except Fork as f:
            for g in f.alts:
                s2 = s.fork()
                if all(add_lit(ex.ctx, s2.pc, l) for l in g): work.append(s2)
        except (Panic, Diverge) as p:
            out.append((s, 'panic', str(p)))
        if len(out) > limit: raise Unsupported('specification too wide')
    return out

# ------------------------------------------------------------ equality of symbolic values, as formulas
def AND(xs):
    o = []
    for x in xs:
        if x is False: return False
        if x is True: continue
        o.append(x)
    return True if not o else o[0] if len(o) == 1 else ('and',) + tuple(o)
def OR(xs):
    o = []
    for x in xs:
        if x is True: return True
        if x is False: continue
        o.append(x)
    return False if not o else o[0] if len(o) == 1 else ('or',) + tuple(o)
def NOT(x):
    return (not x) if isinstance(x, bool) else x[1] if x[0] == 'not' else ('not', x)
def LITS(g): return AND(('lit', l) for l in g)
def IMP(a, b): return OR([NOT(a), b])

class Eq:
    def __init__(self, ex, st): self.ex, self.st, self.L = ex, st, ex.lib
    def boolf(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, Cases): return AND(IMP(LITS(g), self.boolf(x)) for g, x in v.cs)
        if isinstance(v, Sym):
            t = v.t
            if isinstance(t, tuple) and t:
                if t[0] == 'not': return NOT(self.boolf(Sym(t[1], 'bool')))
                if t[0] == 'and': return AND([self.boolf(Sym(x, 'bool')) for x in t[1:]])
                if t[0] == 'or': return OR([self.boolf(Sym(x, 'bool')) for x in t[1:]])
                if t[0] == 'streq': return ('lit', (('str', t[1]), '=', t[2]))
                if t[0] == 'inteq': return ('lit', (('int', t[1]), '=', t[2]))
            return ('lit', (t, '=', True))
        raise Unsupported('boolean %s' % show(v))
    def live(self, g): return consistent(self.ex.ctx, self.st.pc, g)
    def eq(self, a, b, d=0):
        if a is b or a == b: return True
        if d > 40: raise Unsupported('deep equality')
        if isinstance(a, Cases): return AND(IMP(LITS(g), self.eq(x, b, d+1)) for g, x in a.cs if self.live(g))
        if isinstance(b, Cases): return AND(IMP(LITS(g), self.eq(a, x, d+1)) for g, x in b.cs if self.live(g))
        isb = lambda x: isinstance(x, bool) or isinstance(x, Sym) and x.ty == 'bool'
        if isb(a) and isb(b):
            fa, fb = self.boolf(a), self.boolf(b)
            return AND([IMP(fa, fb), IMP(fb, fa)])
        a, b = self.norm(a), self.norm(b)
        if a == b: return True
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.t == b.t: return True
            if self.smallenum(a) and self.smallenum(a) == self.smallenum(b):
                en = base_ty(strip_ref(a.ty))
                return AND(AND([IMP(('lit', (('disc', a.t, en), '=', x)), ('lit', (('disc', b.t, en), '=', x)))]) for x in self.smallenum(a))
            if base_ty(strip_ref(a.ty)) == 'Result' == base_ty(strip_ref(b.ty)):
                ka, kb = (('disc', a.t, 'Result'), '=', 'Ok'), (('disc', b.t, 'Result'), '=', 'Ok')
                pa = Sym(('f', a.t, 'Ok.0'), ty_args(strip_ref(a.ty))[0]); pb = Sym(('f', b.t, 'Ok.0'), ty_args(strip_ref(b.ty))[0])
                return AND([IMP(('lit', ka), ('lit', kb)), IMP(('lit', kb), ('lit', ka)), IMP(('lit', ka), self.eq(pa, pb, d+1))])
            if base_ty(strip_ref(a.ty)) == 'Option' == base_ty(strip_ref(b.ty)):
                ka, kb = (('disc', a.t, 'Option'), '=', 'Some'), (('disc', b.t, 'Option'), '=', 'Some')
                pa = Sym(('f', a.t, 'Some.0'), ty_args(strip_ref(a.ty))[0]); pb = Sym(('f', b.t, 'Some.0'), ty_args(strip_ref(b.ty))[0])
                return AND([IMP(('lit', ka), ('lit', kb)), IMP(('lit', kb), ('lit', ka)), IMP(('lit', ka), self.eq(pa, pb, d+1))])
            # same function applied to provably equal arguments
            if isinstance(a.t, tuple) and isinstance(b.t, tuple) and a.t[:2] == b.t[:2] and a.t[0] == 'app' and len(a.t) == len(b.t):
                return AND(self.eq(x, y, d+1) for x, y in zip(a.t[2:], b.t[2:]))
            return False
        if isinstance(b, Adt) and b.n == 'SomeError': return True     # an error; its text is not specified
        if isinstance(a, Sym) and isinstance(b, Adt): return self.symadt(a, b, d)
        if isinstance(b, Sym) and isinstance(a, Adt): return self.symadt(b, a, d)
        if isinstance(a, Adt) and isinstance(b, Adt):
            if a.n != b.n or a.v != b.v or len(a.fs) != len(b.fs): return False
            if a.n == 'MapParams':
                x, y = (0, 'typarams', a.fs[1]), (0, 'typarams', b.fs[1])
                return AND([self.eq(a.fs[0], b.fs[0], d+1), self.cases(x, y, lambda p, q: self.eq(p, q, d+1))])
            if a.n == 'Result' and a.v == 'Err':
                for x, y in ((a, b), (b, a)):
                    if isinstance(y.fs[0], Adt) and y.fs[0].n == 'Rejected': return self.rejected(x.fs[0], y.fs[0].fs)
                return True     # rejected; the text is not specified
            if a.n == 'CompileError': return True     # some compile error; its text is not specified
            return AND(self.eq(x, y, d+1) for x, y in zip(a.fs, b.fs))
        if isinstance(a, Toks) and isinstance(b, Toks): return self.items(a.items, b.items, d+1)
        if isinstance(a, Toks) and isinstance(b, Sym): return self.items(a.items, (('h', b),), d+1)
        if isinstance(b, Toks) and isinstance(a, Sym): return self.items((('h', a),), b.items, d+1)
        if isinstance(a, (Seq, Iter)) and isinstance(b, (Seq, Iter)): return self.segs(a.segs, b.segs, d+1)
        if isinstance(a, Seq) and isinstance(b, Sym): return self.segs(a.segs, self.L.segs(self.ex, self.st, b), d+1)
        if isinstance(b, Seq) and isinstance(a, Sym): return self.segs(self.L.segs(self.ex, self.st, a), b.segs, d+1)
        return False
    def rejected(self, err, reqs):
        """the error names every conflict: a different message for each requirement, holding all of its words"""
        if len(reqs) == 1 and isinstance(reqs[0], Seq):     # one error for each element listed
            if not (isinstance(err, Adt) and err.n == 'DarlingError' and err.v == 'multiple'): raise Unsupported('error %s' % show(err))
            return self.segs(err.fs[0].segs, reqs[0].segs)
        texts = []
        def walk(e):
            if isinstance(e, Adt) and e.n == 'DarlingError':
                if e.v == 'multiple':
                    for g in e.fs[0].segs:
                        if g[0] != 'e': raise Unsupported('errors %s' % show(e))
                        walk(g[1])
                    return
                if e.v == 'custom':
                    t = self.norm(e.fs[0])
                    if isinstance(t, Str): texts.append(''.join(p if isinstance(p, str) else '\0' for p in t.parts)); return
            raise Unsupported('error %s' % show(e))
        walk(err)
        has = lambda t, ws: all(re.search(r'(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])' % re.escape(w), t) for w in ws)
        def match(rs, ts):
            if not rs: return True
            return any(has(t, rs[0]) and match(rs[1:], ts[:i] + ts[i+1:]) for i, t in enumerate(ts))
        if match(list(reqs), texts): return True
        if any('\0' in t for t in texts): raise Unsupported('error text %s' % texts)
        return False
    def smallenum(self, v):
        en = base_ty(strip_ref(v.ty))
        if en not in self.ex.ctx.src.enums: return None
        vs = self.ex.ctx.variants(en)
        if vs and all(not self.ex.ctx.fields(en, x) for x in vs): return vs
        return None
    def norm(self, v):
        if isinstance(v, Adt):
            if v.n == 'Cow' and len(v.fs) == 1: return self.norm(v.fs[0])
            if v.n == 'MapParams' and isinstance(v.fs[0], Sym) and self.nothing(('typarams', v.fs[0].t)): return v.fs[0]
            if v.n == 'Ident' and len(v.fs) == 1 and isinstance(v.fs[0], Str) and len(v.fs[0].parts) == 1 and v.fs[0].parts[0][0] == 'display':
                return Sym(v.fs[0].parts[0][1], 'Ident')
        if isinstance(v, Str) and len(v.parts) == 1 and isinstance(v.parts[0], tuple) and v.parts[0][0] == 'str':
            return Sym(v.parts[0][1], 'String')
        if isinstance(v, Sym) and v.ty.startswith('&'): return Sym(v.t, strip_ref(v.ty))
        return v
    def nothing(self, seqt):
        """this path knows the sequence to be empty"""
        return self.st.pc.get(('empty', seqt)) == ('=', True)
    def symadt(self, s, a, d):
        en = a.n
        r = record_of(self.ex, s)
        if r is not None and r.record == en:
            sp = r.spec(S(self.ex, self.st), *s.t[2:])
            out = []
            for (n, t), x in zip(self.ex.ctx.fields(en), a.fs):
                if n not in sp: out.append(self.eq(Sym(('f', s.t, n), t), x, d+1)); continue
                for q, k, v in leaves(self.ex, self.st, sp[n][1]):
                    f = False if k == 'panic' else Eq(self.ex, q).eq(self.ex.view(q, v), x, d+1)
                    out.append(IMP(LITS(lits_of(q.pc, self.st.pc)), f))
            return AND(out)
        ty = strip_ref(s.ty)
        if a.v is not None:
            vs = self.ex.ctx.variants(en)
            if not vs: return False
            l = ('lit', (('disc', s.t, en), '=', a.v))
            fs = []
            for i, x in enumerate(() if a.n == 'Result' and a.v == 'Err' else a.fs):
                try: fs.append(self.eq(S(self.ex, self.st).payload(s, a.v, i), x, d+1))
                except (Unsupported, Fork): fs.append(False)
            return AND([l] + fs)
        fields = self.ex.ctx.fields(en)
        if fields is None or len(fields) != len(a.fs) or base_ty(ty) != en: return False
        return AND(self.eq(Sym(('f', s.t, n), t), x, d+1) for (n, t), x in zip(fields, a.fs))
    def item(self, x, y, d=0):
        if x == y: return True
        if x[0] == 'id' and len(x[1].parts) == 1 and x[1].parts[0][0] == 'display': x = ('h', Sym(x[1].parts[0][1], 'Ident'))
        if y[0] == 'id' and len(y[1].parts) == 1 and y[1].parts[0][0] == 'display': y = ('h', Sym(y[1].parts[0][1], 'Ident'))
        if x == y: return True
        if x[0] != y[0]: return False
        if x[0] == 'g': return x[1] == y[1] and self.items(x[2], y[2], d+1)
        if x[0] in ('h', 's', 'id'): return self.eq(x[1], y[1], d+1)
        if x[0] in ('fm', 'sep'):
            if x[0] == 'sep': return x[1] == y[1] and self.segs(x[2], y[2], d+1)
            return AND([self.cases(x, y, lambda p, q: self.items(p, q, d+1))])
        return False
    def nitems(self, xs):
        """printing every token tree of a stream in order is printing the stream"""
        out = []
        for x in xs:
            if x[0] == 'fm' and self.nothing(x[1]): continue
            if x[0] == 'fm' and isinstance(x[1], tuple) and x[1][0] == 'trees':
                el = ('elem', x[1])
                ok = lambda b: len(b) == 1 and b[0][0] == 'h' and isinstance(b[0][1], Sym) and \
                    (b[0][1].t == el or b[0][1].t in [('f', el, v + '.0') for v in ('Group', 'Ident', 'Punct', 'Literal')])
                if x[2] and all(ok(b) for _, b in x[2]): x = ('h', Sym(x[1][1], 'TokenStream'))
            out.append(x)
        return tuple(out)
    def items(self, xs, ys, d=0):
        xs, ys = self.nitems(xs), self.nitems(ys)
        if len(xs) != len(ys):
            # streams that may print nothing are not modelled: lengths must agree
            return False
        return AND(self.item(x, y, d) for x, y in zip(xs, ys))
    def cases(self, x, y, cmp):
        if x[1] != y[1]: return False
        pc = self.st.pc
        cx, cy = canon(self.ex.ctx, pc, x[2]), canon(self.ex.ctx, pc, y[2])
        if cx == cy: return True
        fs = []
        for g1, b1 in cx:
            for g2, b2 in cy:
                s = State(self.st.heap, dict(pc))
                if not all(add_lit(self.ex.ctx, s.pc, l) for l in g1 + g2): continue
                f = Eq(self.ex, s).rec(cmp, b1, b2)
                fs.append(IMP(AND([LITS(g1), LITS(g2)]), f))
        return AND(fs)
    def rec(self, cmp, a, b):
        if a == b: return True
        if hasattr(a, '_fields') or hasattr(b, '_fields'): return self.eq(a, b)
        if a and a[0][0] in ('e', 'all', 'map'): return self.segs(a, b)
        return self.items(a, b) if not (b and b[0][0] in ('e', 'all', 'map')) else self.segs(a, b)
    def segs(self, xs, ys, d=0):
        xs, ys = self.nsegs(xs), self.nsegs(ys)
        if len(xs) != len(ys): return False
        out = []
        for x, y in zip(xs, ys):
            if x == y: continue
            if x[0] != y[0]: return False
            if x[0] == 'e': out.append(self.eq(x[1], y[1], d+1))
            elif x[0] == 'all': 
                if x[1] != y[1]: return False
            elif x[0] == 'map': out.append(self.cases(x, y, lambda p, q: self.segs(p, q, d+1)))
            else: return False
        return AND(out)
    def nsegs(self, xs):
        out = []
        for x in xs:
            if x[0] in ('map', 'all') and self.nothing(x[1]): continue
            if x[0] == 'map':
                # the identity map is the sequence itself
                el = ('elem', x[1])
                if all(len(b) == 1 and b[0][0] == 'e' and isinstance(b[0][1], Sym) and b[0][1].t == el for _, b in x[2]):
                    x = ('all', x[1], x[2][0][1][0][1].ty if x[2] else '?')
            out.append(x)
        return tuple(out)

OWN_ATTRS = tuple(('i', n) for n in ('doc', 'allow', 'inline', 'must_use', 'automatically_derived'))
def undoc(items):
    """generated code without its documentation and lint attributes, which change no behaviour:
    attributes without effect on behaviour (`doc`, `allow`, `inline`, ..) written out in full (forwarded attributes are opaque items)"""
    out, i = [], 0
    items = list(items)
    while i < len(items):
        it = items[i]
        if it == ('p', '#') and i + 1 < len(items) and items[i+1][0] == 'g' and items[i+1][1] == '[' and items[i+1][2] and items[i+1][2][0] in OWN_ATTRS:
            i += 2; continue
        if it[0] == 'g': it = ('g', it[1], undoc(it[2]))
        out.append(it); i += 1
    return tuple(out)
def undoc_lt(t):
    out, i, xs = [], 0, t.xs
    while i < len(xs):
        l, it = xs[i]
        if it == ('p', '#') and i + 1 < len(xs) and xs[i+1][1][0] == 'G' and xs[i+1][1][1] == '[' and xs[i+1][1][2].xs and xs[i+1][1][2].xs[0][1] in OWN_ATTRS:
            i += 2; continue
        if it[0] == 'G': it = ('G', it[1], undoc_lt(it[2]))
        out.append((l, it)); i += 1
    return LT(out)

# ------------------------------------------------------------ blame
def blame(ex, st, spec, impl, ctxlabels=frozenset()):
    """labels of the specification tokens that differ: spec LT, impl plain items; the path is st"""
    eqq = Eq(ex, st)
    def same(l, it):
        p = ('g', l[1], l[2].plain()) if l[0] == 'G' else l
        return eqq.item(p, it) is True
    def go(sp, im):
        i = 0
        while i < len(sp) and i < len(im) and same(sp[i][1], im[i]): i += 1
        j = 0
        while j < len(sp) - i and j < len(im) - i and same(sp[-1-j][1], im[-1-j]): j += 1
        a, b = sp[i:len(sp)-j], im[i:len(im)-j]
        if len(a) == len(b) == 1 and a[0][1][0] == 'G' and b[0][0] == 'g' and a[0][1][1] == b[0][1]:
            return go(a[0][1][2].xs, list(b[0][2])) or set(a[0][0])
        if len(a) == len(b) and len(a) > 1:
            # several replaced positions: blame each
            out = set()
            for x, y in zip(a, b):
                if same(x[1], y): continue
                if x[1][0] == 'G' and y[0] == 'g' and x[1][1] == y[1]: out |= go(x[1][2].xs, list(y[2])) or set(x[0])
                else: out |= x[0]
            return out
        out = set()
        for l, it in a:
            out |= l
            if it[0] == 'G': out |= alll(it[2].xs)
        if not a:
            # a copy of opaque tokens of the input that have a place of their own elsewhere is the fault of theirs
            for it in b:
                if it[0] not in ('i', 'p', 'g', 'l'): out |= elsewhere(it, spec.xs)
            # tokens were inserted: the neighbours' labels
            if i > 0: out |= sp[i-1][0]
            if i < len(sp): out |= sp[i][0]
        return out
    def elsewhere(it, xs):
        o = set()
        for l, x in xs:
            if same(x, it): o |= l
            if x[0] == 'G': o |= elsewhere(it, x[2].xs)
        return o
    def alll(xs):
        o = set()
        for l, it in xs:
            o |= l
            if it[0] == 'G': o |= alll(it[2].xs)
        return o
    return go(spec.xs, list(impl)) or set(ctxlabels)
