"""Contracts on the option parsers: the code darling's derives expand to inside derive_builder_core (what its
`#[darling(..)]` attributes mean), verified on the MIR the compiler makes of it.

Each is a loop over an unknown list of items.  The loop is cut at its head: every local named after an option is a slot
(seen, value) there, and the accumulator holds an unknown list of errors.  Invariant: while there are no errors, a slot
is (true, Some(what its handler made of the item that named it)) if an item named it and (false, None) otherwise.
 init   the invariant holds before the first item
 step   for an arbitrary item from an arbitrary state, exactly the slot the item names changes, to the result of the
        option's handler; an item nobody names, a literal, a repetition and a failing handler add an error; nothing else
        changes (or, where options are flattened, the item is kept for the flattened parser)
 exit   with errors the result is Err; without, every option is what was given or its documented default, and what is
        required is required
"""
import re, time
import z3
from values import *
from mirparse import Unsupported, base_ty, ty_args, norm_ty
from ex import Ex, State, Fork, Budget, Diverge, add_lit, lits_of, enum_dom
from lib import Lib, lex
from spec import S, Eq, leaves, NOT, labels, Panic
from verify import Z, Result
import verify as V

# ------------------------------------------------------------------ merging states of an acyclic segment

def covers(ctx, a, l1, l2):
    """(op, x) of the union of two disjoint literals on one atom; True when it is everything; None when not one literal"""
    dom = enum_dom(ctx, a)
    def st(l): return ({l[1]} if l[0] == '=' else None, set(l[1]) if l[0] == '!=' else None)
    if dom is not None:
        v = [{l[1]} if l[0] == '=' else set(dom) - set(l[1]) for l in (l1, l2)]
        if v[0] & v[1]: return None
        return True if v[0] | v[1] == set(dom) else None
    for p, q in ((l1, l2), (l2, l1)):
        if p[0] == '=' and q[0] == '!=' and p[1] in q[1]:
            rest = frozenset(q[1]) - {p[1]}
            return True if not rest else ('!=', rest)
    return None

def combine(ga, a, gb, b, wide):
    if a is b or a == b: return a
    if isinstance(a, Adt) and isinstance(b, Adt) and a.n == b.n and a.v == b.v and len(a.fs) == len(b.fs) and a.fs and a.n != 'closure':
        return Adt(a.n, a.v, tuple(combine(ga, x, gb, y, wide) for x, y in zip(a.fs, b.fs)))
    if wide is not None and isinstance(a, Acc) and isinstance(b, Acc) and a.errs.segs[:1] == b.errs.segs[:1] == (wide,): return Acc(Seq((wide,)))
    return Cases(((ga, a), (gb, b)))

def try_merge(ctx, s, t, wide):
    da = {a: l for a, l in s.pc.items() if t.pc.get(a) != l}
    db = {a: l for a, l in t.pc.items() if s.pc.get(a) != l}
    if len(da) != 1 or set(da) != set(db): return None
    (a, la), lb = next(iter(da.items())), next(iter(db.values()))
    u = covers(ctx, a, la, lb)
    if u is None: return None
    pc = {x: l for x, l in s.pc.items() if x != a}
    if u is not True: pc[a] = u
    ga, gb = ((a,) + la,), ((a,) + lb,)
    heap = {c: combine(ga, v, gb, t.heap[c], wide) for c, v in s.heap.items() if c in t.heap}
    return State(heap, pc)

class PEx(Ex):
    wide = None
    def rpo(self, fn, cuts):
        def succ(i):
            t = fn.blocks[i].term
            if t is None: return []
            if t[0] == 'goto': r = [t[1]]
            elif t[0] == 'switch': r = [x[1] for x in t[2]]
            elif t[0] == 'assert': r = [t[4]]
            elif t[0] == 'call': r = [t[4]] if t[4] is not None else []
            else: r = []
            return [x for x in r if x not in cuts]
        seen, post = set(), []
        for root in [0] + sorted(cuts):
            stack = [(root, iter(succ(root)))]
            if root in seen: continue
            seen.add(root)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); stack.append((s, iter(succ(s)))); break
                else:
                    post.append(n); stack.pop()
        return {b: i for i, b in enumerate(reversed(post))}

    def segment(self, fn, fid, st, bb, cuts, merge=False):
        """from block bb until the next loop head or the end; -> [(kind, state, block | value | message)]"""
        order = self.rpo(fn, cuts)
        pend, out = {bb: [st]}, []
        first = True
        while pend:
            b = min(pend, key=lambda x: order[x])
            sts = pend.pop(b)
            if merge:
                go = True
                while go:
                    go = False
                    for i in range(len(sts)):
                        for j in range(i + 1, len(sts)):
                            m = try_merge(self.ctx, sts[i], sts[j], self.wide)
                            if m is not None:
                                sts = [x for k, x in enumerate(sts) if k not in (i, j)] + [m]; go = True; break
                        if go: break
            if len(sts) > 4000: raise Unsupported('too many states in ' + fn.name)
            for s in sts:
                for kind, s2, x in self.block(fn, fid, s, b):
                    if kind == 'goto':
                        if x in cuts: out.append(('cut', s2, x))
                        else: pend.setdefault(x, []).append(s2)
                    else: out.append((kind, s2, x))
        return out

    def block(self, fn, fid, st, bb):
        work, out = [(st, 0)], []
        b = fn.blocks[bb]
        while work:
            st, si = work.pop()
            forked = False
            while si <= len(b.stmts) and not forked:
                self.steps += 1
                if self.steps > self.budget: raise Budget()
                try:
                    if si < len(b.stmts): self.stmt(fn, fid, st, b.stmts[si])
                    else:
                        for r in self.term(fn, fid, st, b.term): out.append((r[0], r[1], r[2]))
                except Fork as f:
                    for g in f.alts:
                        s2 = st.fork()
                        if all(add_lit(self.ctx, s2.pc, l) for l in g): work.append((s2, si))
                    forked = True
                except Diverge as d:
                    out.append(('panic', st, d.msg)); forked = True
                si += 1
        return out

# ------------------------------------------------------------------ the specification

class Opt:
    """one option: the name it has in the attribute, the field, what parses it, its value when not given"""
    def __init__(self, name, field, ty, lb, handler=None, default='none'):
        self.name, self.field, self.ty, self.lb, self.default = name, field, ty, labels(lb), default
        self.handler = handler or '<%s as FromMeta>::from_meta' % ty

ABSENT = Sym(('absent',), 'Flag')
VIS_NONE = Adt('VisibilityAttr', 'None', ())
def none(S): return NONE()
def absent(S): return ABSENT
def novis(S): return VIS_NONE
def false(S): return False
def nones(ty):
    """a record of options, none of them given"""
    def f(S): return Adt(ty, None, tuple(VIS_NONE if base_ty(t) == 'VisibilityAttr' else NONE() for _, t in S.ex.ctx.fields(ty)))
    return f
def ident(n): return lambda S: Adt('Ident', None, (lit(n),))
def root(S): return Adt('Parsed', None, (Toks(lex(':: derive_builder')),))

class Parser:
    kind, inline, opaque, unfold, requires, recursive, record, parts, init, args, alias = 'parser', True, None, False, None, False, None, None, None, [], ()
    def __init__(self, ty, method, opts, flatten=None, then=None, fwd=None, magic=None, shape=None, extra=''):
        self.ty, self.method, self.opts, self.flatten, self.then = ty, method, opts, flatten, then
        self.fwd, self.magic, self.shape = fwd, magic or {}, shape
        tr = {'from_list': 'FromMeta', 'from_field': 'FromField', 'from_derive_input': 'FromDeriveInput'}[method]
        self.key = '<%s as %s>::%s' % (ty, tr, method)
        l = {'C14'} | set(extra.split())
        for o in opts: l |= o.lb
        if flatten: l |= labels(flatten[1])
        self.labels = ' '.join(sorted(l))
    def spec(self, *a): raise Unsupported('parser')
    def prove(self, ctx, contracts, budget, R): return Proof(self, ctx, contracts, budget, R).run()

ITEM = ('v', 'x')
REST = ('all', ('v', 'rest'), 'NestedMeta')
ERRS = ('all', ('v', 'errs'), 'DarlingError')
FLAT = ('all', ('v', 'flat'), 'NestedMeta')
FWD = ('all', ('v', 'fwd'), 'Attribute')
ATTR = ('v', 'attr')
AREST = ('all', ('v', 'attrs'), 'Attribute')
META = Sym(('f', ITEM, 'Meta.0'), 'Meta')

class Proof:
    def __init__(self, c, ctx, contracts, budget, R):
        self.c, self.ctx, self.R = c, ctx, R
        fn = ctx.derived.get((c.ty, c.method))
        if fn is None: raise Lost('no function ' + c.key)
        self.fn = fn
        fn.parse()
        ex = self.ex = PEx(ctx, Lib(), max(budget, 3000000))
        ex.active = {k: x for k, x in contracts.items() if not x.inline}
        for t in ('Field', 'Struct'):           # proved on their own
            k = '<%sForwardedAttrs as TryFrom<Vec<Attribute>>>::try_from' % t
            ex.active[k] = V.Contract(k, [], 'value', None, opaque='Result<%sForwardedAttrs, DarlingError>' % t)
        ex.contracts = {k: x for k, x in contracts.items() if x.kind != 'parser'}
        ex.exists = lambda c: V.find_fn(ctx, c.key) is not None
        self.z = Z(ctx)
        self.fid = 7000
        ex.fnstack.append(fn)
        ex.touched.add(fn.name)
        self.slots, self.pend, self.state, self.covers = {}, [], {}, []
        for ln in fn.lines:
            m = re.match(r'^\s*debug (\w+) => _(\d+);', ln)
            if m: self.slots.setdefault(m.group(1), int(m.group(2)))

    def local(self, n):
        if n not in self.slots: raise Unsupported('no local %s in %s' % (n, self.c.key))
        return (self.fid, self.slots[n])

    # ---------------- obligations
    def fail(self, lb, comp, pc, why, spec='', impl='', got=None):
        R = self.R
        R.status = 'failed'
        R.failures.append(dict(labels=lb, component=comp, pc=dict(pc), why=why, spec=spec, impl=impl, got=got))
    def oblige(self, comp, lb, st, got, th):
        """got equals the specification th under the path condition of st (ANY: unconstrained)"""
        R, ex, z = self.R, self.ex, self.z
        R.obligations += 1
        base = State(dict(st.heap), dict(st.pc))
        sp = leaves(ex, base, th)
        fs, info = [], []
        for q, kk, sv in sp:
            if sv is ANY: e = True
            elif kk == 'panic': e = False
            else: e = Eq(ex, q).eq(got, ex.view(q, sv))
            fs.append(z3.And(z.pc(q.pc), z.f(NOT(e)))); info.append((q, sv))
        cover = z3.Not(z3.Or([z.pc(q.pc) for q, _ in info]))
        z.anys(st.pc)
        pz = z.pc(st.pc)
        bad = z.sat(pz, z3.Or(fs + [cover]))
        if bad == 'unsat': R.discharged += 1; return True
        for f, (q, sv) in zip(fs, info):
            if bad == 'sat' and z.sat(pz, f) != 'sat': continue
            self.fail(lb(q) if callable(lb) else lb, comp, q.pc, '' if bad == 'sat' else 'solver answered ' + bad, 'unconstrained' if sv is ANY else show(sv) if not isinstance(sv, str) else sv, show(got), repr(got))
            return False
        self.fail(lb(st) if callable(lb) else lb, comp, st.pc, 'specification does not cover this path (%s)' % bad)
        return False
    def cover(self, comp, st, outs):
        self.R.obligations += 1
        r = self.z.sat(self.z.pc(st.pc), z3.Not(z3.Or([self.z.pc(s.pc) for _, s, _ in outs])))
        if r == 'unsat': self.R.discharged += 1
        else: self.fail(None, comp + '.paths', st.pc, 'paths do not cover (%s)' % r)

    # ---------------- what an item means
    def named(self, S):
        """the option the item names, 'lit', or None"""
        if S.ex.variant(S.st, Sym(ITEM, 'NestedMeta')) != 'Meta': return 'lit'
        t = ('pathstr', ('path', META.t))
        for o in self.c.opts:
            if S.truth(Sym(('streq', t, o.name), 'bool')): return o
        return None
    def outcome(self, S):
        """('err',) | ('slot', option, value) | ('keep', item)"""
        o = self.named(S)
        if o == 'lit': return ('err', None)
        if o is None: return ('keep', None) if self.c.flatten else ('err', None)
        if S.truth(Sym(('seen', o.name), 'bool')): return ('err', o)
        s2, r = S.ex.call1(S.st, FnItem(o.handler), [META])
        r = S.ex.resolve(s2, r)
        if S.ex.variant(S.st, r, 'Result') == 'Ok': return ('slot', o, S.payload(r, 'Ok', ty=o.ty))
        return ('err', o)
    def item_labels(self, q, o=None):
        """labels of the option the path is about"""
        l = set(o.lb) if o is not None else set()
        cur = q.pc.get(('str', ('pathstr', ('path', META.t))))
        if cur and cur[0] == '=':
            for p in self.c.opts:
                if p.name == cur[1]: return frozenset(l | p.lb)
        return frozenset(l or {'C14'})

    # ---------------- states
    def clear(self, st):
        """a state at a loop head: slots, errors and kept items are arbitrary"""
        for o in self.c.opts:
            st.heap[self.local(o.field)] = tup(Sym(('seen', o.name), 'bool'), Sym(('val', o.name), 'Option<%s>' % o.ty))
        st.heap[self.local('__errors')] = Acc(Seq((ERRS,)))
        if self.c.flatten: st.heap[self.local('__flatten')] = Seq((FLAT,))
        if self.c.fwd: st.heap[self.local('__fwd_attrs')] = Seq((FWD,))
        return st
    def fixed(self):
        cs = {self.local(o.field) for o in self.c.opts} | {self.local('__errors')}
        if self.c.flatten: cs.add(self.local('__flatten'))
        if self.c.fwd: cs.add(self.local('__fwd_attrs'))
        return cs
    def parts(self, st):
        """what the invariant speaks of, as values"""
        ex = self.ex
        g = lambda n: ex.view(st, st.heap[self.local(n)])
        d = {'slot ' + o.name: (o, g(o.field)) for o in self.c.opts}
        d['errors'] = (None, g('__errors'))
        if self.c.flatten: d['kept items'] = (None, g('__flatten'))
        if self.c.fwd: d['forwarded attributes'] = (None, g('__fwd_attrs'))
        return d
    def iterof(self, st, head):
        """the iterator the loop at head advances"""
        for s in self.fn.blocks[head].stmts:
            if s[0] == 'assign' and s[2][0] == 'ref' and not s[2][1][1]:
                c = (self.fid, s[2][1][0])
                if isinstance(st.heap.get(c), Iter): return c
        raise Unsupported('iterator of the loop in ' + self.c.key)

    # ---------------- the proof
    def run(self):
        fn, ex, c = self.fn, self.ex, self.c
        heads = set(fn.headers)
        if len(heads) != (2 if c.fwd else 1): raise Unsupported('%d loops in %s' % (len(heads), c.key))
        if len(fn.args) != 1: raise Lost('signature of %s changed' % c.key)
        st = State({}, {})
        n, ty = {'from_list': ('items', '[NestedMeta]'), 'from_field': ('field', 'Field'), 'from_derive_input': ('input', 'DeriveInput')}[c.method]
        self.src = Sym(('v', n), ty)
        if c.fwd: self.src = Adt('syn::' + ty, None, tuple(Sym(('src', f), t) for f, t in SYN[ty]))
        st.heap[('arg',)] = self.src
        st.heap[(self.fid, 1)] = Ref(('arg',), ())
        outs = ex.segment(fn, self.fid, st.fork(), 0, heads)
        if len(outs) != 1 or outs[0][0] != 'cut': raise Unsupported('the start of ' + c.key)
        _, h0, head = outs[0]
        # init
        it = self.iterof(h0, head)
        seq = Iter((('all', self.src.t, 'NestedMeta'),)) if not c.fwd else Iter(ex.lib.segs(ex, h0, self.src.fs[0]))
        self.oblige('init.items', frozenset({'C14'}), h0, ex.view(h0, h0.heap[it]), lambda S: seq)
        for nm, (o, v) in self.parts(h0).items():
            exp = Acc(Seq(())) if nm == 'errors' else Seq(()) if o is None else tup(False, NONE())
            self.oblige('init.' + nm, o.lb if o else frozenset({'C14'}), h0, v, lambda S, exp=exp: exp)
        self.base = h0
        if not c.fwd:
            self.loop(h0, head, self.items)
        else:
            inner = (heads - {head}).pop()
            self.inner, self.arrivals = inner, []
            self.loop(h0, head, self.attrs)
            for a in self.arrivals: self.loop(a, inner, self.items, outer=head)
        self.exit(head)
        R = self.R
        R.solver_s, R.queries = self.z.time, self.z.queries
        R.assumed, R.used, R.touched = ex.assumed, ex.used_contracts, ex.touched

    def loop(self, h0, head, body, outer=None):
        """find the locals the loop changes, then run `body` on the arbitrary iteration"""
        it = self.iterof(h0, head)
        drop = set()
        for rnd in range(6):
            st = self.clear(h0.fork())
            for c in drop:
                ty = self.fn.locals.get(c[1]) if c[0] == self.fid else None
                if ty == 'bool': st.heap[c] = Sym(('local', c[1]), 'bool')
                else: st.heap.pop(c, None)
            outs = body(st, head, it, outer)
            new = set()
            for s in outs:
                for c, v in st.heap.items():
                    if c in self.fixed() or c == it: continue
                    if c in s.heap and (s.heap[c] is v or s.heap[c] == v): continue
                    new.add(c)
            if not new - drop: break
            drop |= new
            del self.pend[:]
        else: raise Unsupported('loop does not stabilise')
        self.state[head] = st
        for ob in self.pend: self.oblige(*ob)
        del self.pend[:]
        self.R.paths += len(outs)


    def step(self, st, head, it, elem, rest, comp):
        st.heap[it] = Iter((('e', elem), rest))
        outs = self.ex.segment(self.fn, self.fid, st.fork(), head, set(self.fn.headers))
        return [o for o in outs if self.z.sat(self.z.pc(o[1].pc)) == 'sat'], st

    def items(self, st, head, it, outer):
        outs, st0 = self.step(st, head, it, Sym(ITEM, '&NestedMeta'), REST, 'item')
        back = []
        for kind, s, x in outs:
            if kind != 'cut' or x != head:
                self.pend.append(('item.loop', self.item_labels(s), s, kind if kind != 'cut' else 'leaves the loop', lambda S: 'the loop goes on'))
                continue
            back.append(s)
            self.pend.append(('item.rest', frozenset({'C14'}), s, s.heap[it], lambda S: Iter((REST,))))
            for nm, (o, v) in self.parts(s).items():
                if nm == 'errors':
                    added = self.added(v)
                    self.pend.append(('item.errors', lambda q: self.item_labels(q) | {'C14'}, s, added, lambda S: self.outcome(S)[0] == 'err'))
                elif nm == 'kept items':
                    self.pend.append(('item.kept', lambda q: self.item_labels(q) | labels(self.c.flatten[1]), s, v, self.kept))
                elif nm == 'forwarded attributes': self.pend.append(('item.forwarded', frozenset({'C13'}), s, v, lambda S: Seq((FWD,))))
                else: self.pend.append(('item.' + nm, lambda q, o=o: self.item_labels(q, o), s, v, lambda S, o=o: self.slot(S, o)))
        self.check_cover('item', st0, outs)
        return back
    def check_cover(self, comp, st, outs): self.covers.append((comp, st, outs))
    def added(self, v):
        if not isinstance(v, Acc) or v.errs.segs[:1] != (ERRS,): raise Unsupported('error accumulator overwritten')
        if any(s[0] != 'e' for s in v.errs.segs[1:]): raise Unsupported('errors appended')
        return len(v.errs.segs) > 1
    def kept(self, S):
        r = self.outcome(S)
        if r[0] == 'err': return ANY
        if r[0] == 'slot': return Seq((FLAT,))
        return Seq((FLAT, ('e', Adt('NestedMeta', 'Meta', (Sym(META.t, 'Meta'),)))))
    def slot(self, S, o):
        r = self.outcome(S)
        if r[0] == 'err': return ANY
        if r[0] == 'slot' and r[1] is o: return tup(True, SOME(r[2]))
        return tup(Sym(('seen', o.name), 'bool'), Sym(('val', o.name), 'Option<%s>' % o.ty))

    # ---------------- attributes
    def attr_outcome(self, S):
        """'err' | 'fwd' | 'ignore' | list of items"""
        name = S.L.display(S.ex, S.st, Toks(S.toks(Sym(('path', ATTR), 'Path'))))
        called = lambda n: S.truth(S.L.str_eq(S.ex, S.st, name, lit(n)))
        if called('builder'):
            r = Sym(('metalist', ATTR), 'Result<MetaList, DarlingError>')
            if S.variant(r) != 'Ok': return 'err'
            m = Sym(('f', S.payload(r, 'Ok').t, 'tokens'), 'TokenStream')
            p = Sym(('parse_meta_list', m), 'Result<Vec<NestedMeta>, Error>')
            if S.variant(p) != 'Ok': return 'err'
            return S.payload(p, 'Ok')
        for n in self.c.fwd:
            if called(n): return 'fwd'
        return 'ignore'
    def attrs(self, st, head, it, outer):
        outs, st0 = self.step(st, head, it, Sym(ATTR, '&Attribute'), AREST, 'attr')
        back, self.arrivals = [], []
        for kind, s, x in outs:
            inner = kind == 'cut' and x == self.inner
            if kind != 'cut':
                self.pend.append(('attribute.loop', frozenset({'C14'}), s, kind, lambda S: 'the loop goes on')); continue
            if s.heap[it] != Iter((AREST,)): raise Unsupported('attributes skipped')
            for nm, (o, v) in self.parts(s).items():
                if nm == 'errors': self.pend.append(('attribute.errors', frozenset({'C14'}), s, self.added(v), lambda S: self.attr_outcome(S) == 'err'))
                elif nm == 'forwarded attributes':
                    self.pend.append(('attribute.forwarded', frozenset({'C13'}), s, v, lambda S: ANY if self.attr_outcome(S) == 'err' else Seq((FWD, ('e', Sym(ATTR, 'Attribute')))) if self.attr_outcome(S) == 'fwd' else Seq((FWD,))))
                else:
                    same = Seq((FLAT,)) if o is None else tup(Sym(('seen', o.name), 'bool'), Sym(('val', o.name), 'Option<%s>' % o.ty))
                    self.pend.append(('attribute.' + nm, o.lb if o else frozenset({'C14'}), s, v, lambda S, same=same: same))
            if inner:
                i2 = self.iterof(s, x)
                self.pend.append(('attribute.items', frozenset({'C14'}), s, self.ex.view(s, s.heap[i2]), lambda S: self.given(S)))
                self.arrivals.append(s)
            else:
                back.append(s)
                # leaving without reading the items: there are none to read
                self.pend.append(('attribute.items', frozenset({'C14'}), s, True, lambda S: self.nothing(S)))
        self.check_cover('attribute', st0, outs)
        return back
    def given(self, S):
        r = self.attr_outcome(S)
        return Iter(S.L.segs(S.ex, S.st, r)) if not isinstance(r, str) else 'no items'
    def nothing(self, S):
        r = self.attr_outcome(S)
        return True if isinstance(r, str) else S.truth(S.L.is_empty(S.ex, S.st, Seq(S.L.segs(S.ex, S.st, r))))

    # ---------------- the end
    def exit(self, head):
        ex, c, fn = self.ex, self.c, self.fn
        for comp, st, outs in self.covers: self.cover(comp, st, outs)
        it = self.iterof(self.base, head)
        st = self.state[head].fork()
        st.heap[it] = Iter(())
        if self.c.fwd:
            # leaving the inner loop changes nothing
            for a in self.arrivals:
                i2 = self.iterof(a, self.inner)
                s = self.state[self.inner].fork(); s.pc = dict(a.pc); s.heap[i2] = Iter(())
                for k, s2, x in ex.segment(fn, self.fid, s.fork(), self.inner, set(fn.headers)):
                    self.R.obligations += 1
                    same = k == 'cut' and x == head and all(s2.heap.get(l) == s.heap.get(l) for l in self.fixed() | {it})
                    if same: self.R.discharged += 1
                    else: self.fail(frozenset({'C14'}), 'attribute.end', s2.pc, 'the end of an attribute changes the parser state')
        # with errors: Err
        a = st.fork()
        if not add_lit(ex.ctx, a.pc, (('empty', ERRS[1]), '=', False)): raise Unsupported('errors')
        ex.wide = ERRS
        outs = ex.segment(fn, self.fid, a, head, set(fn.headers), merge=True)
        ex.wide = None
        outs = [o for o in outs if self.z.sat(self.z.pc(o[1].pc)) == 'sat']
        self.cover('exit with errors', st if False else self.with_pc(st, a.pc), outs)
        for k, s, v in self.split(outs):
            self.oblige('exit with errors', frozenset({'C14'}), s, k if k != 'ret' else ex.variant(s, v, 'Result'), lambda S: ANY if self.may_panic(S) else 'Err')
        # without: the record
        b = st.fork()
        for o in c.opts:
            t, f = (('seen', o.name), '=', True), (('seen', o.name), '=', False)
            b.heap[self.local(o.field)] = tup(Sym(('seen', o.name), 'bool'), Cases((((t,), SOME(Sym(('got', o.name), o.ty))), ((f,), NONE()))))
        b.heap[self.local('__errors')] = Acc(Seq(()))
        outs = ex.segment(fn, self.fid, b.fork(), head, set(fn.headers), merge=True)
        outs = [o for o in outs if self.z.sat(self.z.pc(o[1].pc)) == 'sat']
        self.cover('exit', b, outs)
        for k, s, v in self.split(outs):
            if k != 'ret':
                self.oblige('exit', frozenset({'C14'}), s, '%s: %s' % (k, v), lambda S: ANY if self.may_panic(S) else 'a result'); continue
            kind = ex.variant(s, v, 'Result')
            if not self.oblige('exit.accepted', lambda q: self.exit_labels(q), s, kind, lambda S: 'Ok' if self.result(S) is not None else 'Err'): continue
            if kind == 'Err': continue
            val = ex.view(s, v)
            val = ex.resolve(s, val.fs[0] if isinstance(val, Adt) else ex.proj(s, val, ('f', 0, c.ty, 'Ok')))
            fs = ex.ctx.fields(c.ty)
            if isinstance(val, Sym): val = ex.expand(s, val)
            by = {o.field: o for o in c.opts}
            exp = None
            for (f, _), g in zip(fs, val.fs):
                o = by.get(f)
                lb = o.lb if o else labels(c.magic[f][0]) if f in c.magic else labels(c.flatten[1]) if c.flatten and f == c.flatten[0] else None
                if lb is None: raise Unsupported('unknown field %s of %s' % (f, c.ty))
                self.oblige('exit.' + f, frozenset(lb), s, g, lambda S, f=f: self.value(S, f))
            missing = [f for f in by if f not in [x for x, _ in fs]]
            if missing: raise Unsupported('field %s of %s is gone' % (missing, c.ty))
    def split(self, outs):
        """one state per alternative of a merged result"""
        ex, work, r = self.ex, list(outs), []
        while work:
            k, s, v = work.pop()
            if k != 'ret': r.append((k, s, v)); continue
            try:
                w = ex.view(s, v)
                if ex.variant(s, w, 'Result') == 'Ok':
                    w = ex.resolve(s, w)
                    p = ex.resolve(s, w.fs[0] if isinstance(w, Adt) else ex.proj(s, w, ('f', 0, self.c.ty, 'Ok')))
                    if isinstance(p, Sym): p = ex.expand(s, p)
                    w = OK(p)
                r.append((k, s, w))
            except Fork as f:
                for g in f.alts:
                    s2 = s.fork()
                    if all(add_lit(ex.ctx, s2.pc, l) for l in g): work.append((k, s2, v))
        return r
    def flat_outs(self, outs):
        r = []
        for s, k, v in outs:
            if k != 'ret': r.append((k, s, v)); continue
            for s2, k2, v2 in leaves(self.ex, s, lambda S: ERR(UNIT) if S.variant(v) == 'Err' else OK(S.payload(v, 'Ok'))):
                r.append((k2, s2, v2))
        return r
    def with_pc(self, st, pc):
        s = st.fork(); s.pc = dict(pc); return s
    def exit_labels(self, q):
        l = set()
        for o in self.c.opts:
            if o.default == 'required': l |= o.lb
        return frozenset(l | {'C14'})
    def may_panic(self, S): return self.c.shape == 'struct' and S.variant(self.body()) == 'Union'
    def body(self): return next(v for v in self.src.fs if isinstance(v, Sym) and v.t == ('src', 'data'))
    def value(self, S, f):
        c = self.c
        for o in c.opts:
            if o.field == f:
                if S.truth(Sym(('seen', o.name), 'bool')): return Sym(('got', o.name), o.ty)
                return o.default(S)
        if c.flatten and f == c.flatten[0]: return S.payload(self.flat(S), 'Ok', ty='VisibilityAttr')
        return c.magic[f][1](S, self)
    def flat(self, S):
        s2, r = S.ex.call1(S.st, FnItem('<VisibilityAttr as FromMeta>::from_list'), [Seq((FLAT,))])
        return S.ex.resolve(s2, r)
    def result(self, S):
        """the record before `then`, or None when something required is missing or unusable"""
        c = self.c
        for o in c.opts:
            if o.default == 'required' and not S.truth(Sym(('seen', o.name), 'bool')): return None
        if c.flatten and S.variant(self.flat(S)) != 'Ok': return None
        for f, m in c.magic.items():
            if len(m) > 2 and not m[2](S, self): return None
        if c.shape == 'struct':
            k = S.variant(self.body())
            if k == 'Union': raise Panic('union')
            if not (k == 'Struct' and S.variant(Sym(('shape', ('f', ('src', 'data'), 'Struct.0')), 'Shape')) == 'Named'): return None
        if c.then:
            rec = Adt(c.ty, None, tuple(self.value(S, f) for f, _ in S.ex.ctx.fields(c.ty)))
            s2, r = S.ex.call1(S.st, FnItem(c.then), [rec])
            if S.ex.variant(S.st, S.ex.resolve(s2, r), 'Result') != 'Ok': return None
        return True

class Choice(Parser):
    """the parser of an enum of words: proved on every list of none, one, and two or more items, and on every string"""
    def __init__(self, ty, method, words, lb):
        self.ty, self.method, self.words, self.opts, self.flatten, self.fwd = ty, method, words, [], None, None
        self.key, self.labels = '<%s as FromMeta>::%s' % (ty, method), lb + ' C14'
    def prove(self, ctx, contracts, budget, R):
        P = Proof(self, ctx, contracts, budget, R)
        ex, lb = P.ex, labels(self.labels)
        def one(S, eq, ok=lambda S: True):
            for w, v in self.words:
                if eq(S, w): return OK(Adt(self.ty, v, ())) if ok(S) else ERR(UNIT)
            return ERR(UNIT)
        named = lambda S, w: S.truth(Sym(('streq', ('pathstr', ('path', META.t)), w), 'bool'))
        def item(S):
            if S.variant(Sym(ITEM, 'NestedMeta')) != 'Meta': return ERR(UNIT)
            return one(S, named, lambda S: S.variant(META) == 'Path')
        e = lambda n: ('e', Sym(('v', n), 'NestedMeta'))
        if self.method == 'from_list':
            cases = [('no item', Seq(()), lambda S: ERR(UNIT)), ('one item', Seq((e('x'),)), item), ('two items or more', Seq((e('x'), e('y'), REST)), lambda S: ERR(UNIT))]
        else:
            text = Sym(('v', 'value'), 'str')
            cases = [('a string', text, lambda S: one(S, lambda S, w: S.truth(S.L.str_eq(S.ex, S.st, S.L.to_str(S.ex, S.st, text), lit(w)))))]
        del ex.fnstack[:]
        for comp, arg, th in cases:
            st = State({('arg',): arg}, {})
            if isinstance(arg, Seq) and len(arg.segs) > 1: st.pc[('int', ('len', arg))] = ('!=', frozenset(range(len(arg.segs) - 1)))
            outs = ex.run_fn(P.fn, [Ref(('arg',), ())], st.fork())
            outs = [o for o in P.flat_outs(outs)]
            P.cover(comp, st, [(k, s, v) for k, s, v in outs])
            for k, s, v in outs: P.oblige(comp, lb, s, v if k == 'ret' else '%s: %s' % (k, v), lambda S: S.cases(th))
        R.paths, R.solver_s, R.queries = len(outs), P.z.time, P.z.queries
        R.assumed, R.used, R.touched = ex.assumed, ex.used_contracts, ex.touched

class ANYTHING: pass
ANY = ANYTHING()
class Lost(Exception): pass

# the fields of the syn types the derives read, in declaration order
SYN = {'Field': [('attrs', 'Vec<Attribute>'), ('vis', 'Visibility'), ('mutability', 'FieldMutability'), ('ident', 'Option<Ident>'), ('colon_token', 'Option<Token>'), ('ty', 'Type')],
       'DeriveInput': [('attrs', 'Vec<Attribute>'), ('vis', 'Visibility'), ('ident', 'Ident'), ('generics', 'Generics'), ('data', 'Data')]}
def src(n): return lambda S, P: next(v for v, (f, _) in zip(P.src.fs, SYN['Field' if P.c.method == 'from_field' else 'DeriveInput']) if f == n)
def attrs_of(ty):
    def r(S, P):
        s2, r = S.ex.call1(S.st, FnItem('<%s as TryFrom<Vec<Attribute>>>::try_from' % ty), [Seq((FWD,))])
        return S.ex.resolve(s2, r)
    return (lambda S, P: S.payload(r(S, P), 'Ok', ty=ty)), (lambda S, P: S.variant(r(S, P)) == 'Ok')
def data(S, P): return Sym(('data_try_from', ('src', 'data')), 'Result<Data<Ignored, Field>, DarlingError>')

O = Opt
SETTER = [O('prefix', 'prefix', 'Option<Ident>', 'C10', default=none), O('into', 'into', 'Option<bool>', 'C09', default=none),
          O('strip_option', 'strip_option', 'Option<bool>', 'C09', default=none), O('skip', 'skip', 'Option<bool>', 'C06', default=none)]
PARSERS = [
    Parser('StructLevelSetter', 'from_list', SETTER),
    Parser('FieldLevelSetter', 'from_list', SETTER + [O('name', 'name', 'Option<Ident>', 'C10', default=none), O('custom', 'custom', 'Option<bool>', 'C06', default=none),
           O('each', 'each', 'Option<Each>', 'C08', handler='parse_each', default=none)]),
    Parser('Each', 'from_list', [O('name', 'name', 'Ident', 'C08 C10', default='required'), O('into', 'into', 'bool', 'C08 C09', default=false)]),
    Parser('VisibilityAttrInternal', 'from_list', [O('public', 'public', 'Flag', 'C12', default=absent), O('private', 'private', 'Flag', 'C12', default=absent),
           O('vis', 'vis', 'Option<Visibility>', 'C12', default=none)]),
    Parser('BuildFnErrorGenerated', 'from_list', [O('validation_error', 'validation_error', 'SpannedValue<bool>', 'C17 C05', default='required')]),
    Parser('BuildFn', 'from_list', [O('skip', 'skip', 'bool', 'C02 C10', default=false), O('name', 'name', 'Ident', 'C10', default=ident('build')),
           O('validate', 'validate', 'Option<Path>', 'C05', default=none), O('error', 'error', 'Option<BuildFnError>', 'C17', default=none)],
           flatten=('visibility', 'C12'), then='BuildFn::validation_needs_error'),
    Parser('FieldLevelFieldMeta', 'from_list', [O('ty', 'builder_type', 'Option<Type>', 'C06', default=none), O('build', 'build', 'Option<BlockContents>', 'C06', default=none)],
           flatten=('visibility', 'C12')),
    Parser('Field', 'from_field', [O('pattern', 'pattern', 'Option<BuilderPattern>', 'C11 C01', default=none),
           O('setter', 'setter', 'FieldLevelSetter', 'C06 C08 C09 C10', handler='field_setter', default=nones('FieldLevelSetter')),
           O('default', 'default', 'Option<DefaultExpression>', 'C04', default=none), O('try_setter', 'try_setter', 'Flag', 'C07', default=absent),
           O('field', 'field', 'FieldLevelFieldMeta', 'C12 C06', default=nones('FieldLevelFieldMeta'))],
           flatten=('visibility', 'C12'), then='Field::resolve', fwd=('doc', 'cfg', 'allow', 'builder_field_attr', 'builder_setter_attr'),
           magic={'ident': ('C10 C21', src('ident')), 'ty': ('C01 C21', src('ty')), 'attrs': ('C13',) + attrs_of('FieldForwardedAttrs')}, extra='C13'),
    Parser('Options', 'from_derive_input', [O('name', 'name', 'Option<Ident>', 'C10', default=none), O('crate', 'crate_root', 'Path', 'C18', default=root),
           O('pattern', 'pattern', 'BuilderPattern', 'C11 C01', default=lambda S: Adt('BuilderPattern', 'Mutable', ())),
           O('build_fn', 'build_fn', 'BuildFn', 'C02 C10', default=lambda S: Adt('BuildFn', None, tuple({'skip': False, 'name': Adt('Ident', None, (lit('build'),)), 'visibility': VIS_NONE}.get(f, NONE()) for f, _ in S.ex.ctx.fields('BuildFn')))),
           O('derive', 'derive', 'PathList', 'C13', default=lambda S: Adt('PathList', None, (Seq(()),))), O('custom_constructor', 'custom_constructor', 'Flag', 'C16', default=absent),
           O('create_empty', 'create_empty', 'Ident', 'C10 C16', default=ident('create_empty')), O('setter', 'setter', 'StructLevelSetter', 'C06 C09 C10', default=nones('StructLevelSetter')),
           O('default', 'default', 'Option<DefaultExpression>', 'C04', default=none), O('no_std', 'no_std', 'Flag', 'C17 C18', default=absent),
           O('try_setter', 'try_setter', 'Flag', 'C07', default=absent), O('field', 'field', 'VisibilityAttr', 'C12', default=novis)],
           flatten=('visibility', 'C12'), fwd=('cfg', 'allow', 'builder_struct_attr', 'builder_impl_attr'),
           magic={'ident': ('C10', src('ident')), 'vis': ('C12', src('vis')), 'generics': ('C15', src('generics')),
                  'data': ('C21', lambda S, P: S.payload(data(S, P), 'Ok', ty='Data<Ignored, Field>'), lambda S, P: S.variant(data(S, P)) == 'Ok'),
                  'attrs': ('C13',) + attrs_of('StructForwardedAttrs')}, shape='struct', extra='C13 C21'),
]
WORDS = [('owned', 'Owned'), ('mutable', 'Mutable'), ('immutable', 'Immutable')]
PARSERS += [Choice('BuilderPattern', m, WORDS, 'C11 C01') for m in ('from_list', 'from_string')]
PARSERS = {p.key: p for p in PARSERS}

# ------------------------------------------------------------------ library contracts only the derives need
from lib import on
@on('path_to_string')
def _pts(L, ex, st, ci, v):
    p = L.deref(ex, st, v[0])
    if isinstance(p, Sym): return Str((('pathstr', p.t),))
    raise Unsupported('path_to_string of %s' % show(p))
@on('Error::duplicate_field', 'Error::missing_field', 'Error::too_few_items', 'Error::too_many_items', 'Error::unknown_field', 'DarlingError::unknown_field_with_alts', 'Error::unknown_field_with_alts', 'DarlingError::unsupported_shape_with_expected', 'Error::unsupported_shape_with_expected',
    'DarlingError::unknown_field_path_with_alts', 'Error::unknown_field_path_with_alts', 'DarlingError::unknown_field_path')

def _ufa(L, ex, st, ci, v): return Adt('DarlingError', ci['m'], ())
@on('parse_attribute_to_meta_list')
def _pam(L, ex, st, ci, v): return Sym(('metalist', ex.view(st, v[0]).t), 'Result<MetaList, DarlingError>')
@on('NestedMeta::parse_meta_list')
def _pml(L, ex, st, ci, v): return Sym(('parse_meta_list', ex.view(st, v[0])), 'Result<Vec<NestedMeta>, Error>')
@on('<FromMeta>::from_none')
def _fnone(L, ex, st, ci, v):
    b = base_ty(ci['ty'])
    if b == 'Option': return SOME(NONE())
    if b == 'Flag': return SOME(ABSENT)
    return NONE()
@on('<FromGenerics>::from_generics')
def _fgen(L, ex, st, ci, v):
    if base_ty(ci['ty']) != 'Generics': raise Unsupported('from_generics for ' + ci['ty'])
    return OK(L.deref(ex, st, v[0]))
@on('Data::try_from')
def _dtf(L, ex, st, ci, v): return Sym(('data_try_from', ex.view(st, v[0]).t), 'Result<%s, DarlingError>' % norm_ty(ci['ty']))
@on('ShapeSet::new')
def _ssn(L, ex, st, ci, v): return Adt('ShapeSet', None, (Seq(L.segs(ex, st, v[0])),))
@on('ShapeSet::is_empty')
def _sse(L, ex, st, ci, v): return L.is_empty(ex, st, L.deref(ex, st, v[0]).fs[0])
@on('ShapeSet::check')
def _ssc(L, ex, st, ci, v):
    s = L.deref(ex, st, v[0]).fs[0]
    k = ex.variant(st, Sym(('shape', ex.view(st, v[1]).t), 'Shape'))
    if any(x[0] != 'e' for x in s.segs): raise Unsupported('shapes')
    ks = [ex.variant(st, x[1]) for x in s.segs]
    return OK(UNIT) if k in ks or k == 'Newtype' and 'Tuple' in ks else ERR(Adt('DarlingError', 'shape', ()))

@on('Error::add_sibling_alts_for_unknown_field', 'DarlingError::add_sibling_alts_for_unknown_field')
def _sib(L, ex, st, ci, v): return v[0]
