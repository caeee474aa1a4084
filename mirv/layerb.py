"""Contracts on the code the macro generates.

A family of annotated structs is expanded by the real `builder_for_struct` of /repo's working tree and compiled
next to opaque user types and functions; the compiler's MIR of every generated function (setters, try and
per-item setters, constructor, Default, build, error conversions and Display) is verified against the contract
its options call for, for all builder states, argument values and outcomes of the user's functions: one
obligation per path and component, discharged by Z3.  The family is finite (bounded); within one member nothing
is."""
import os, re, sys, json, time, random, copy, subprocess, multiprocessing, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'concrete')]
sys.setrecursionlimit(20000)
import z3
from values import *
from mirparse import Unsupported, norm_ty, base_ty, ty_args
import mirparse, srcinfo
from ex import Ex, State, Ctx, Fork, Budget, Diverge, callee_info
from lib import Lib, after
_norm = norm_ty
def norm_ty(t): return re.sub(r'(^|[^\w>:])::(?=\w)', r'\1', _norm(t.replace(' ', '') if '::' in t else t))
from spec import S as Spec, leaves, Eq, NOT
from verify import Z, show_g, lits_of
import model as M, runtime as RT, structural as ST

SUP = '''#![allow(warnings)]
#[derive(Debug, PartialEq, Clone, Default)] pub struct P(u32);
#[derive(Debug, PartialEq, Default)] pub struct N(u32);
#[derive(Debug, PartialEq, Clone, Default)] pub struct A(u32);
#[derive(Debug, PartialEq, Clone, Default)] pub struct B(u32);
#[derive(Debug)] pub struct Er(u32);
impl From<db::UninitializedFieldError> for Er { fn from(_: db::UninitializedFieldError) -> Er { Er(0) } }
impl From<String> for Er { fn from(_: String) -> Er { Er(1) } }
pub fn ev<X>(_: u32) -> X { unimplemented!() }
pub fn chk<X>(_: &X) -> Result<(), String> { unimplemented!() }
'''
TRACE = ('trace',)

# ------------------------------------------------------------------ the family
class Member:
    def __init__(self, case, k):
        """case: a shape (options, with placeholders for the user's expressions)"""
        self.case, self.k = case, k
        s = self.s = copy.deepcopy(case.s)
        s.name = 'Foo%d' % k
        s.crate = None
        if s.bname: s.bname = '%s%d' % (s.bname, k)
        s.derive = []
        self.custom_err = bool(s.error) and s.error is not True
        if self.custom_err: s.error = 'sup::Er'
        if s.validate: s.validate = 'sup::chk'
        self.ev = {}
        def ev(what, ty):
            n = len(self.ev) + 1
            self.ev[what] = n
            return 'sup::ev::<%s>(%d)' % (ty, n)
        g = self.g = '<%s>' % ', '.join(p[1] for p in s.generics) if s.generics else ''
        for f in s.fields:
            if f.default == 'expr': f.default = ev('d:' + f.name, f.ty)
            if f.field_build == 'expr': f.field_build = ev('b:' + f.name, f.ty)
        if s.default == 'expr': s.default = ev('D', s.name + g)
        elif s.default == 'word': ev('D', '')
        self.bname, self.ename = M.builder_name(s), M.error_name(s)
        self.src = M.render(s, k)
    def item(self):
        s = self.s
        g = '<%s>' % ', '.join(p[0] for p in s.generics) if s.generics else ''
        o = '%s struct %s%s %s { %s }' % (s.vis, s.name, g, 'where ' + ', '.join(s.where) if s.where else '', ', '.join('pub %s: %s' % (f.name, f.ty) for f in s.fields))
        if s.default == 'word': o += ' impl Default for %s { fn default() -> Self { sup::ev::<%s>(%d) } }' % (s.name, s.name, self.ev['D'])
        return o

def shape(fields, **o):
    s = M.S(fields, name='Foo', vis='pub', **o)
    c = RT.Case(s, 'case_fam')
    c.custom_err = bool(s.error) and s.error is not True
    return c

def systematic():
    """every combination of the options of one setter; every combination of the sources of a value at build"""
    out = []
    F = M.F
    for pat in ('mutable', 'owned', 'immutable'):
        for into in (None, True):
            for strip in (None, True):
                for tr in (False, True):
                    fs = []
                    for k, (ty, each) in enumerate([('P', None), ('Option<P>', None), ('Vec<P>', ('e2', None)), ('Vec<P>', ('e3', True)), ('Option<Vec<P>>', ('e4', None)), ('Option<Vec<P>>', ('e5', True)), ('u32', None)]):
                        if ty.startswith('Option') and each and not strip: each = None
                        d = dict(into=into, strip_option=strip, each=each)
                        fs.append(F('abcdefg'[k], ty, setter={x: y for x, y in d.items() if y is not None} or None, try_setter=tr, pattern=pat if k % 2 else None))
                    fs.insert(len(out) % 7, F('plain', 'P'))
                    out.append(shape(fs, pattern=pat))
                    d = {x: y for x, y in dict(into=into, strip_option=strip).items() if y is not None} or None
                    out.append(shape([F('h', 'P', field_ty='Option<P>', field_build='expr', setter=d, try_setter=tr), F('i', 'P', field_ty='Option<Option<P>>', field_build='expr', setter=d, try_setter=tr, pattern='immutable'),
                                      F('j', 'Option<P>', field_ty='P', field_build='expr', setter=d, try_setter=tr), F('k', 'P', field_ty='Vec<P>', field_build='expr', setter=d, try_setter=tr), F('l', 'Option<P>', setter=d, field_build='expr', try_setter=tr)], pattern=pat))
    n = 0
    for pat in ('mutable', 'owned', 'immutable'):
        for sdef in (None, 'word', 'expr'):
            for val in (False, True):
                for err in (None, 'custom', True):
                    fs = [F('a', 'P'), F('b', 'P', default='expr'), F('c', 'P', setter={'skip': True}), F('d', 'Option<P>', default='word'), F('e', 'P', setter={'skip': True}, default='expr'),
                          F('f', 'P', field_build='expr'), F('g', 'u32', field_ty='u32'), F('h', 'Option<P>', setter={'strip_option': True}), F('i', 'P', setter={'custom': True})]
                    r = random.Random(n); n += 1
                    if n % 3: r.shuffle(fs)
                    if not n % 4: fs = fs[:3]
                    if pat == 'owned' and n % 2: fs[0].ty = 'N'; fs[0].setter = fs[0].setter if not isinstance(fs[0].setter, dict) or 'strip_option' not in fs[0].setter else None
                    for f in fs:
                        if f.ty == 'N': f.default = f.field_build = f.field_ty = f.pattern = None
                    out.append(shape(fs, pattern=pat, default=sdef, validate='check' if val else None, error='sup::Er' if err == 'custom' else err))
    for pat in ('mutable', 'owned', 'immutable'):
        for fp in ('mutable', 'owned', 'immutable'):
            if pat != 'owned' and fp == 'owned': continue
            out.append(shape([F('a', 'P', pattern=fp, try_setter=True), F('b', 'T'), F('c', 'Vec<P>', pattern=fp, setter={'each': ('x', None)})], pattern=pat, generics=[('T: Clone', 'T', 'ty')], custom_constructor=fp == 'owned', create_empty='empty'))
    out.append(shape([]))
    out.append(shape([], pattern='owned', default='word', validate='check'))
    for c in out: c.lib = '::derive_builder'
    return out

def rand_shapes(seed, n):
    rnd = random.Random(repr(('layerb', seed)))
    out = []
    for _ in range(n):
        c = RT.rand_shape(rnd, 'case_fam')
        c.lib = '::derive_builder'
        out.append(c)
    return out

def plain_type(t, gens):
    """a type of the family with the same shape, as far as it has one"""
    t = t.replace(' ', '')
    m = re.match(r'^((?:::)?(?:(?:std|core)::option::)?Option|Vec)<(.*)>$', t)
    if m and M.option_inner(t) is not None or m and m.group(1) == 'Vec': return '%s<%s>' % (m.group(1), plain_type(m.group(2), gens))
    if t in gens or t in ('u8', 'u16', 'u32', 'u64', 'i32', 'bool', 'usize'): return t
    return 'P'

def directed(s):
    """the input's options on types and expressions that compile: the member of the family nearest to it"""
    s = copy.deepcopy(s)
    s.name, s.vis, s.attrs, s.derive, s.crate, s.where, s.prelude = 'Foo', 'pub', [], [], None, [], ''
    gens = [p[1] for p in s.generics if p[2] == 'ty']
    if s.bname: s.bname = 'Maker'
    keep = set()
    struct_owned = M.struct_pattern(s) == 'owned'
    for f in s.fields:
        f.attrs, f.fvis = [], ''
        f.v = [x for x in f.v if isinstance(x, str)][:1]; f.field_v = [x for x in f.field_v if isinstance(x, str)][:1]
        f.ty = plain_type(f.ty, gens)
        if f.field_ty: f.field_ty = plain_type(f.field_ty, [])
        if f.default and f.default != 'word' or f.default and f.ty in gens: f.default = 'expr'
        if f.field_build: f.field_build, f.default = 'expr', None
        elif f.field_ty:
            f.default = None
            if not struct_owned: f.field_ty = 'u32'
            f.ty = f.field_ty
        d = M.sd(f)
        if d.get('each'):
            f.field_ty = None
            i = M.option_inner(f.ty)
            if i is None: f.ty = 'Vec<P>'
            elif M.eff_setter(s, f, 'strip_option'): f.ty = f.ty[:f.ty.index('<') + 1] + 'Vec<P>>'
            else: f.setter = {k: v for k, v in d.items() if k != 'each'} or None
        if f.default and f.default != 'word' or f.default and f.ty in gens: f.default = 'expr'
        for g in gens:
            if re.search(r'\b%s\b' % g, f.ty): keep.add(g)
    s.generics = [('%s: Clone + Default' % g, g, 'ty') for g in gens if g in keep]
    s.v = [x for x in s.v if isinstance(x, str)][:1]; s.bf_v = [x for x in s.bf_v if isinstance(x, str)][:1]; s.field_v = [x for x in s.field_v if isinstance(x, str)][:1]
    if s.default: s.default = 'word' if s.default == 'word' and not s.generics else 'expr'
    s.no_std = False
    if s.validate and s.generics: s.validate = None
    if s.validate: s.validate = 'check'
    if s.validate and s.error is False: s.error = None
    if s.error is not None and s.error is not True and s.error is not False: s.error = 'sup::Er'
    c = RT.Case(s, 'case_fam')
    c.custom_err = s.error == 'sup::Er'
    c.lib = '::derive_builder'
    return c

def runnable(c, ident, rnd):
    """the member as a case of the run-time suite"""
    c = copy.deepcopy(c)
    c.id = ident
    s = c.s
    s.name = 'Foo'
    if c.custom_err: s.error = 'crate::%s::MyErr' % ident
    for f in s.fields:
        f.ty = re.sub(r'\b(u8|u16|u64|i32|bool|usize|String)\b', 'P', f.ty)
        if f.field_ty: f.field_ty = re.sub(r'\b(u8|u16|u64|i32|bool|usize|String)\b', 'P', f.field_ty)
    if s.generics:
        s.generics = [(p.replace(g, 'T', 1), 'T', k) for p, g, k in s.generics[:1]]
    return RT.finish(c, rnd)

# ------------------------------------------------------------------ the user's types and functions
def event(st, v): st.heap[TRACE] = Seq(st.heap[TRACE].segs + (('e', v),))
UFE = 'UninitializedFieldError'

def sdefault(ty):
    """the type's Default, and the event of evaluating it"""
    t = norm_ty(ty.replace(' ', ''))
    b = base_ty(t)
    if b == 'Option': return NONE(), []
    if b == 'Vec': return Seq(()), []
    if b in ('u32', 'usize', 'u8', 'i32'): return 0, []
    if b == 'bool': return False, []
    if b == 'String': return Str(()), []
    if b == 'PhantomData': return Adt('PhantomData', None, ()), []
    return Sym(('default', t), t), [Adt('evaluated', 'default ' + t, ())]

def into(ex, st, v, sty, t):
    """`From`/`Into` between the types at hand: std's reflexive one, the generated ones (by their bodies), the user's (unknown)"""
    t = norm_ty(t)
    if sty and norm_ty(sty) == t: return v
    b = base_ty(t)
    if ex.ctx.by_key.get((b, 'from')):
        fn = ex.ctx.method(b, 'from', 'From<%s>' % norm_ty(sty))
        if fn: return ex.call_fn(st, fn, [v])
    if sty and b == 'Option' and ty_args(t) and norm_ty(ty_args(t)[0]) == norm_ty(sty): return SOME(v)
    if b == UFE: return Adt(UFE, None, (ex.lib.to_str(ex, st, v),))
    return Sym(('into', t, ex.view(st, v)), t)

class LibB(Lib):
    def const(self, ex, s):
        m = re.match(r'^(?:[\w:]*::)?(PhantomData|Foo\d+|Foo\d+Builder|Maker\d+)(::<.*>)?(?: \{+\s*\}+)?$', s)
        if m: return Adt(m.group(1), None, ())
        return super().const(ex, s)
    def call(self, ex, st, ci, vals):
        r = self.user(ex, st, ci, vals)
        if r is NotImplemented: return super().call(ex, st, ci, vals)
        return r if isinstance(r, list) else [(st, 'ret', r)]
    def user(self, ex, st, ci, v):
        m, tr = ci['m'], base_ty(ci['trait']) if ci['trait'] else None
        ty = norm_ty(ci['ty']) if ci['ty'] else None
        if m == 'ev':
            n = ex.resolve(st, v[0])
            event(st, Adt('evaluated', 'ev %d' % n, ()))
            t = norm_ty(ci['gen'].strip()[1:-1])
            return Sym(('ev', n), t)
        if m == 'chk' and ty in (None, 'sup'):
            b = ex.view(st, v[0])
            event(st, Adt('validated', None, (b,)))
            return Sym(('chk', b), 'Result<(), String>')
        if ty == UFE or m in ('new', 'from', 'field_name') and ci['ty'] and base_ty(ci['ty']) == UFE:
            if m in ('new', 'from'): return Adt(UFE, None, (self.to_str(ex, st, v[0]),))
            if m == 'field_name':
                w = self.deref(ex, st, v[0])
                return w.fs[0] if isinstance(w, Adt) else Sym(('f', w.t, '0'), 'str')
        if tr == 'Into' and m == 'into': return into(ex, st, v[0], ty, ty_args(ci['trait'])[0])
        if tr == 'From' and m == 'from': return into(ex, st, v[0], ty_args(ci['trait'])[0], ty)
        if tr == 'TryInto' and m == 'try_into':
            t = norm_ty(ty_args(ci['trait'])[0])
            return Sym(('tryinto', t, ex.view(st, v[0])), 'Result<%s, %s>' % (t, 'Error'))
        if tr == 'TryFrom' and m == 'try_from':
            return Sym(('tryinto', ty, ex.view(st, v[0])), 'Result<%s, %s>' % (ty, 'Error'))
        if tr == 'Default' and m == 'default' or m == 'default' and ty is not None:
            t = ty or ci['dty']
            if ex.ctx.by_key.get((base_ty(t), 'default')): return NotImplemented
            x, e = sdefault(t)
            for y in e: event(st, y)
            return x
        if tr == 'FromResidual':
            w = self.deref(ex, st, v[0])
            if isinstance(w, Adt) and w.n == 'Result':
                src = ty_args(ty_args(ci['trait'])[0])[1]
                r = into(ex, st, w.fs[0], src, ty_args(ty)[1])
                if isinstance(r, list): return [(s, k, ERR(x) if k == 'ret' else x) for s, k, x in r]
                return ERR(r)
        return NotImplemented

# ------------------------------------------------------------------ contracts
def evs(m, what): return Adt('evaluated', 'ev %d' % m.ev[what], ())
def val(t): return Sym(t, norm_ty(t[-1]) if False else '?')

class Contracts:
    """the functions a member must have, each with the contract its options call for"""
    def __init__(self, m): self.m, self.s = m, m.s
    def sigma(self): return Sym(('v', 'self'), self.m.bname)
    def fty(self, f):
        """type of the builder's field"""
        if not M.field_enabled(self.s, f): return 'PhantomData<%s>' % f.ty
        return f.field_ty or 'Option<%s>' % f.ty
    def slot(self, S, f):
        if not M.field_enabled(self.s, f): return Adt('PhantomData', None, ())
        return Sym(('f', ('v', 'self'), f.name), norm_ty(self.fty(f)))
    def store(self, f, v, stripped):
        if stripped: v = SOME(v)
        return v if f.field_ty else SOME(v)
    def all(self):
        s = self.s
        yield self.ctor()
        if not s.custom_constructor: yield self.dflt()
        for f in s.fields:
            if not M.setter_enabled(s, f): continue
            yield self.setter(f)
            if M.try_setter(s, f): yield self.trysetter(f)
            if M.sd(f).get('each'): yield self.each(f)
        if not s.bf_skip: yield self.build()
        if not self.m.custom_err:
            yield self.from_uninit()
            if s.error is not False: yield self.from_string()
            yield self.display()
    # each contract: (key, arguments, function S, outcome -> list of (labels, component, got, expected))
    def empty(self, S):
        tr, fs = [], []
        for f in self.s.fields:
            if not M.field_enabled(self.s, f): fs.append(Adt('PhantomData', None, ()))
            elif f.field_ty:
                x, e = sdefault(f.field_ty); tr += e; fs.append(x)
            else: fs.append(NONE())
        return fs, tr
    def ctor(self, key=None):
        s = self.s
        def spec(S, o):
            fs, tr = self.empty(S)
            got = o.record(S, o.value, self.m.bname)
            return [('C16', 'builder field ' + f.name, g, x) for f, g, x in zip(s.fields, got, fs)] + [('C16', 'events', o.trace(S), tr)]
        return (key or '%s::%s' % (self.m.bname, s.create_empty or 'create_empty'), [], spec)
    def dflt(self): return self.ctor('<%s as Default>::default' % self.m.bname)
    def tag(self, f, kind): return ' '.join(RT.tags(self.s, f, kind))
    def updated(self, S, o, b, f, new, base, tag, tr):
        """the builder b is self with field f replaced"""
        out = []
        for g, x in zip(self.s.fields, o.record(S, b, self.m.bname)):
            if g is f: out.append((tag, 'field %s' % g.name, x, new))
            else: out.append((base, 'other field %s' % g.name, x, self.slot(S, g)))
        return out + [(base, 'events', o.trace(S), tr)]
    def receiver(self, f):
        p = M.eff_pattern(self.s, f)
        return ('self', self.m.bname, {'owned': 'val', 'mutable': 'mut', 'immutable': 'ref'}[p]), p
    def returned(self, S, o, v, p, base):
        """the builder a setter gives back, and what must hold of the receiver"""
        if p == 'mutable':
            v2 = S.ex.resolve(S.st, v)
            same = isinstance(v2, Ref) and (v2.cell, v2.path) == (('mut', 'self'), ())
            return S.st.heap[('mut', 'self')], [(base, 'the same builder is returned', same, True)]
        if p == 'immutable': return v, [(base, 'receiver', o.receiver(S), self.sigma())]
        return v, []
    def setter(self, f):
        s = self.s
        ty, stripped = M.param_ty(s, f)
        ty = norm_ty(ty.replace(' ', ''))
        conv = bool(M.eff_setter(s, f, 'into'))
        r, p = self.receiver(f)
        tag, base = self.tag(f, 'set'), 'C01'
        def spec(S, o):
            x = Sym(('v', 'value'), 'VALUE' if conv else ty)
            v = Sym(('into', ty, x), ty) if conv else x
            b, more = self.returned(S, o, o.value, p, base)
            return more + self.updated(S, o, b, f, self.store(f, v, stripped), base, tag, [])
        return ('%s::%s' % (self.m.bname, M.setter_name(s, f)), [r, ('value', 'VALUE' if conv else ty, 'val')], spec)
    def trysetter(self, f):
        s = self.s
        ty, stripped = M.param_ty(s, f)
        ty = norm_ty(ty.replace(' ', ''))
        r, p = self.receiver(f)
        tag, base = self.tag(f, 'try'), 'C07'
        def spec(S, o):
            t = Sym(('tryinto', ty, Sym(('v', 'value'), 'VALUE')), 'Result<%s, Error>' % ty)
            k, x = o.result(S)
            out = [(base, 'Ok exactly when the conversion succeeds', k, S.variant(t))]
            if k != S.variant(t): return out
            if k == 'Ok':
                b, more = self.returned(S, o, x, p, base)
                return out + more + self.updated(S, o, b, f, self.store(f, S.payload(t, 'Ok'), stripped), base, tag, [])
            out.append((base, 'the conversion error is returned', x, S.payload(t, 'Err')))
            if p != 'owned': out.append((base, 'receiver', o.receiver(S), self.sigma()))
            return out + [(base, 'events', o.trace(S), [])]
        return ('%s::try_%s' % (self.m.bname, M.unraw(M.setter_name(s, f))), [r, ('value', 'VALUE', 'val')], spec)
    def each(self, f):
        s = self.s
        name, conv = M.sd(f)['each']
        ty, stripped = M.param_ty(s, f)
        r, p = self.receiver(f)
        tag, base = self.tag(f, 'each'), 'C08'
        def spec(S, o):
            x = Sym(('v', 'item'), 'FROM_VALUE' if conv else 'VALUE')
            if conv: x = Sym(('into', 'VALUE', x), 'VALUE')
            cur = self.slot(S, f)
            segs = ()
            c = S.opt(cur)
            if c is not None and stripped: c = S.opt(c)
            if c is not None: segs = S.L.segs(S.ex, S.st, c)
            new = Seq(tuple(segs) + (('e', x),))
            b, more = self.returned(S, o, o.value, p, base)
            return more + self.updated(S, o, b, f, self.store(f, new, stripped), base, tag, [])
        return ('%s::%s' % (self.m.bname, name), [r, ('item', 'FROM_VALUE' if conv else 'VALUE', 'val')], spec)
    def error(self, S, what, v):
        if not self.m.custom_err: return Adt(self.m.ename, 'UninitializedField' if what == UFE else 'ValidationError', (v,))
        if what == UFE: v = Adt(UFE, None, (v,))
        return Sym(('into', 'Er', v), 'Er')
    def build(self):
        s = self.s
        p = M.struct_pattern(s)
        r = ('self', self.m.bname, 'val' if p == 'owned' else 'ref')
        def spec(S, o):
            tr = []
            k, x = o.result(S)
            lt = 'C05 C04 C02' if s.validate else 'C04 C02'
            fin = lambda out: out + [(lt, 'events', o.trace(S), tr)] + ([('C02', 'receiver', o.receiver(S), self.sigma())] if p != 'owned' else [])
            if s.validate:
                tr.append(Adt('validated', None, (self.sigma(),)))
                c = Sym(('chk', self.sigma()), 'Result<(), String>')
                if S.variant(c) == 'Err':
                    if k != 'Err': return fin([('C05', 'a failed validation stops the build', k, 'Err')])
                    return fin([('C05', 'the validator\'s error is returned', x, self.error(S, 'String', S.payload(c, 'Err')))])
            dv = None
            if s.default:
                tr.append(evs(self.m, 'D')); dv = Sym(('ev', self.m.ev['D']), s.name)
            want = []
            for f in s.fields:
                def default():
                    if f.default == 'word':
                        v, e = sdefault(f.ty); tr.extend(e); return v
                    if f.default:
                        tr.append(evs(self.m, 'd:' + f.name)); return Sym(('ev', self.m.ev['d:' + f.name]), norm_ty(f.ty))
                    if s.default: return Sym(('f', dv.t, f.name), norm_ty(f.ty))
                    return None
                if not M.field_enabled(s, f):
                    v = default()
                    if v is None:
                        v, e = sdefault(f.ty); tr.extend(e)
                elif f.field_build:
                    tr.append(evs(self.m, 'b:' + f.name)); v = Sym(('ev', self.m.ev['b:' + f.name]), norm_ty(f.ty))
                elif f.field_ty: v = self.slot(S, f)
                else:
                    v = S.opt(self.slot(S, f))
                    if v is None:
                        v = default()
                        if v is None:
                            if k != 'Err': return [('C03', 'a missing field is reported', k, 'Err')]
                            return fin([('C03 C19', 'the missing field is %s' % f.name, x, self.error(S, UFE, lit(f.name)))])
                want.append(v)
            if k != 'Ok': return [('C02 C05' if s.validate else 'C02', 'build succeeds', k, 'Ok')]
            out = []
            for f, g, v in zip(s.fields, o.record(S, x, s.name), want):
                t = ['C02']
                if not M.field_enabled(s, f): t.append('C06')
                if f.field_ty or f.field_build: t.append('C20')
                if f.default or s.default: t.append('C04')
                out.append((' '.join(t), 'built field ' + f.name, g, v))
            return fin(out)
        return ('%s::%s' % (self.m.bname, s.bf_name or 'build'), [r], spec)
    def from_uninit(self):
        def spec(S, o): return [('C17 C03 C19', 'result', o.value, self.error(S, UFE, Sym(('f', ('v', 's'), '0'), 'str')))]
        return ('<%s as From<%s>>::from' % (self.m.ename, UFE), [('s', UFE, 'val')], spec)
    def from_string(self):
        def spec(S, o): return [('C17 C05', 'result', o.value, self.error(S, 'String', Sym(('v', 's'), 'String')))]
        return ('<%s as From<String>>::from' % self.m.ename, [('s', 'String', 'val')], spec)
    def display(self):
        def spec(S, o):
            e = Sym(('v', 'self'), self.m.ename)
            if S.variant(e) == 'UninitializedField': parts = ('`', S.payload(e, 'UninitializedField', ty='str'), '` must be initialized')
            else: parts = (S.payload(e, 'ValidationError', ty='String'),)
            from lib import catstr
            want = Str(())
            for q in parts: want = catstr(want, lit(q) if isinstance(q, str) else S.display(q))
            return [('C17', 'text', S.st.heap[('mut', 'f')], want)]
        return ('<%s as Display>::fmt' % self.m.ename, [('self', self.m.ename, 'ref'), ('f', 'Formatter', 'fmt')], spec)

class Outcome:
    def __init__(self, ex, value): self.ex, self.value = ex, value
    def trace(self, S): return [x for _, x in S.st.heap[TRACE].segs]
    def receiver(self, S):
        c = ('mut', 'self')
        if c in S.st.heap: return S.st.heap[c]
        c = next((c for c in S.st.heap if c[0] == 'ext' and c[1] == ('v', 'self')), None)
        return S.st.heap[c] if c else Sym(('v', 'self'), '?')
    def result(self, S):
        v = S.ex.resolve(S.st, self.value)
        k = S.variant(v)
        return k, S.payload(v, k)
    def record(self, S, v, name):
        v = S.ex.view(S.st, v)
        v = S.ex.resolve(S.st, v)
        v = S.ex.expand(S.st, v)
        if v.n != name: raise Unsupported('a %s, expected %s' % (v.n, name))
        return [Adt('PhantomData', None, ()) if isinstance(x, Sym) and base_ty(x.ty) == 'PhantomData' else x for x in v.fs]

def find(ctx, key):
    m = re.match(r'^<(.*) as (.*)>::(\w+)$', key)
    if m: return ctx.method(m.group(1), m.group(3), m.group(2))
    t, n = key.rsplit('::', 1)
    f = ctx.method(t, n)
    return f if f is not None and f.impl[1] is None else None

def eq(S, a, b):
    if isinstance(a, (str, bool)) and isinstance(b, (str, bool)): return a == b
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b): return False
        from spec import AND
        return AND([eq(S, x, y) for x, y in zip(a, b)])
    if isinstance(a, Adt) and isinstance(b, Adt) and a.n == b.n == 'evaluated': return a == b
    a, b = S.ex.view(S.st, a), S.ex.view(S.st, b)
    return Eq(S.ex, S.st).eq(a, b)

def check(ctx, m, key, args, spec):
    """-> dict(status, obligations, discharged, failures, note)"""
    R = dict(key=key, status='ok', obligations=0, discharged=0, failures=[], note='', assumed=[], queries=0, solver_s=0.0)
    fn = find(ctx, key)
    if fn is None: R['status'], R['note'] = 'lost', 'no such function'; return R
    try:
        if len(fn.args) != len(args): raise Unsupported('%d arguments, expected %d' % (len(fn.args), len(args)))
        for (i, t), (n, ty, mode) in zip(fn.args, args):
            is_ref = 'mut' if re.match(r"^&('\w+ )?mut ", t) else 'ref' if t.startswith('&') and n == 'self' else 'val'
            if n == 'self' and is_ref != mode:
                R['status'] = 'failed'; R['obligations'] = 1
                R['failures'].append(dict(labels='C01 C02', component='receiver', path='', got=t, expected=mode)); return R
        ex = Ex(ctx, LibB(), 60000)
        ex.contracts, ex.active, ex.exists = {}, {}, lambda c: False
        st = State({TRACE: Seq(())}, {})
        vals = []
        for n, ty, mode in args:
            if mode == 'ref': vals.append(Ref(('ext', ('v', n), Sym(('v', n), ty)), ()))
            elif mode == 'mut': st.heap[('mut', n)] = Sym(('v', n), ty); vals.append(Ref(('mut', n), ()))
            elif mode == 'fmt': st.heap[('mut', n)] = Str(()); vals.append(Ref(('mut', n), ()))
            else: vals.append(Sym(('v', n), ty))
        outs = ex.run_fn(fn, vals, st)
        z = Z(ctx)
        R['obligations'] += 1
        allp = [z.pc(s.pc) for s, _, _ in outs]
        if outs and z.sat(z3.Not(z3.Or(allp))) == 'unsat': R['discharged'] += 1
        else: R['status'] = 'failed'; R['failures'].append(dict(labels='', component='paths', path='', got='', expected='paths cover every input'))
        for (s, kind, v), pz in zip(outs, allp):
            if z.sat(pz) != 'sat': continue
            o = Outcome(ex, v)
            def run(S):
                if kind == 'panic': return [('', 'panic', 'panics: %s' % (v,), 'no panic')]
                return [(lb, n, g, x, eq(S, g, x)) for lb, n, g, x in spec(S, o)]
            for q, k2, comps in leaves(ex, State(dict(s.heap), dict(s.pc)), run):
                if k2 == 'panic': raise Unsupported('specification: %s' % comps)
                for c in comps:
                    R['obligations'] += 1
                    if len(c) == 4: lb, n, g, x = c; e = False
                    else: lb, n, g, x, e = c
                    if e is True or z.sat(z.pc(q.pc), z.f(NOT(e))) == 'unsat': R['discharged'] += 1; continue
                    R['status'] = 'failed'
                    sh = lambda y: y if isinstance(y, str) else '[%s]' % ', '.join(map(show, y)) if isinstance(y, list) else show(y)
                    R['failures'].append(dict(labels=lb, component=n, path=show_g(lits_of(q.pc, {}))[:1500], got=sh(g)[:1500], expected=sh(x)[:1500]))
        R['assumed'], R['queries'], R['solver_s'] = sorted(ex.assumed), z.queries, z.time
    except (Unsupported, Budget) as e: R['status'], R['note'] = 'unsupported', '%s %s' % (type(e).__name__, str(e)[:300])
    except Exception as e:
        import traceback
        R['status'], R['note'] = 'unsupported', 'internal: %r at %s' % (e, traceback.format_exc().strip().split('\n')[-3].strip())
    return R

# ------------------------------------------------------------------ running
G = {}
def one(k):
    m = G['members'][k]
    rs = []
    for key, args, spec in Contracts(m).all(): rs.append(check(G['ctx'], m, key, args, spec))
    return k, rs

def tidy(text):
    """the same code with paths and types written without spaces (outside string literals)"""
    def fix(s):
        s = re.sub(r'::\s*derive_builder\b', 'derive_builder', s.replace('\n', ' '))
        s = re.sub(r'(?<=[\w>])\s*::\s*(?=[\w<{*])', '::', s)
        s = re.sub(r'(\w)\s*<\s*', r'\1<', s)
        return re.sub(r'\s+>(?=[\s,;>)(:])', '>', s)
    return ''.join(x if i % 2 else fix(x) for i, x in enumerate(re.split(r'("(?:\\.|[^"\\])*")', text)))

def prepare(scratch, driver, members, repo):
    """expand, compile, drop members whose expansion does not compile -> (ctx, members left, [(member, message)])"""
    src = os.path.join(scratch, 'fam'); shutil.rmtree(src, ignore_errors=True)
    os.makedirs(os.path.join(src, 'src')); os.makedirs(os.path.join(src, 'sup', 'src'))
    inp = '\n'.join(json.dumps({'id': m.k, 'src': m.src, 'text': True}) for m in members) + '\n'
    r = subprocess.run([driver], input=inp, capture_output=True, text=True)
    exp = {o['id']: o for o in map(json.loads, r.stdout.splitlines())}
    broken, ok = [], []
    for m in members:
        o = exp.get(m.k, {})
        if 'items' not in o or any(i['kind'] == 'macro' for i in o['items']):
            broken.append((m, 'not expanded: ' + (o.get('invalid') or o.get('unparsable') or o.get('panic') or next((i.get('text') or '' for i in o.get('items', []) if i['kind'] == 'macro'), '?')))); continue
        m.text = tidy(o['tokens']); ok.append(m)
    w = lambda p, t: open(os.path.join(src, p), 'w').write(t)
    dep = 'db = { package = "derive_builder", path = "%s/derive_builder" }\n' % repo
    w('Cargo.toml', '[package]\nname = "fam"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nsup = { path = "sup" }\nderive_builder = { path = "%s/derive_builder" }\n[profile.dev]\ndebug = false\nincremental = false\n' % repo)
    w('sup/Cargo.toml', '[package]\nname = "sup"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n' + dep)
    w('sup/src/lib.rs', SUP)
    lock = os.path.join(repo, 'Cargo.lock')
    if not os.path.exists(lock): lock = '/opt/vp/Cargo.lock'
    if os.path.exists(lock): shutil.copy(lock, os.path.join(src, 'Cargo.lock'))
    mir = os.path.join(scratch, 'fam.mir')
    for attempt in range(6):
        lines, at = ['#![allow(warnings)]', 'use sup::*;'], {}
        for m in ok:
            at[len(lines) + 1] = m; lines.append(m.item())
            at[len(lines) + 1] = m; lines.append(m.text)
        w('src/lib.rs', '\n'.join(lines) + '\n')
        cmd = '. /opt/vp/common.sh >/dev/null 2>&1; cd %s && cargo rustc --offline -q --lib --profile dev --target-dir %s --message-format=json -- --emit=mir=%s -C debug-assertions=off -A warnings' % (src, os.path.join(scratch, 'target'), mir)
        r = subprocess.run(['bash', '-c', cmd], capture_output=True, text=True)
        if r.returncode == 0: break
        bad = {}
        for l in r.stdout.splitlines():
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('reason') != 'compiler-message' or d['message']['level'] != 'error': continue
            for sp in d['message']['spans']:
                if sp['file_name'] == 'src/lib.rs' and sp['line_start'] in at: bad.setdefault(at[sp['line_start']], d['message']['message'])
        if not bad: raise RuntimeError('the family does not build: ' + (r.stderr + r.stdout)[-1500:])
        for m, t in bad.items(): broken.append((m, 'does not compile: ' + t))
        ok = [m for m in ok if m not in bad]
    else: raise RuntimeError('the family keeps failing to build')
    s = srcinfo.Src()
    s.add_file(os.path.join(src, 'src/lib.rs'), 'src/lib.rs')
    return Ctx(mirparse.load(mir), s), ok, broken

def run(scratch, driver, shapes, procs=8, repo=None):
    repo = repo or os.environ.get('VERIF_REPO', '/repo')
    t0 = time.time()
    os.makedirs(scratch, exist_ok=True)
    members = [Member(c, k) for k, c in enumerate(shapes)]
    ctx, ok, broken = prepare(scratch, driver, members, repo)
    tb = time.time() - t0
    G['ctx'], G['members'] = ctx, {m.k: m for m in ok}
    with multiprocessing.get_context('fork').Pool(procs) as p: res = dict(p.imap_unordered(one, [m.k for m in ok], chunksize=2))
    out = dict(members=len(ok), proved_members=[],  functions=0, obligations=0, discharged=0, failures=[], open=[], broken=[(m, t) for m, t in broken], build_s=tb, wall_s=0, assumed=set(), solver_s=0.0, queries=0)
    for m in ok:
        if all(r['status'] == 'ok' for r in res[m.k]): out['proved_members'].append(m.k)
        for r in res[m.k]:
            out['functions'] += 1
            out['obligations'] += r['obligations']; out['discharged'] += r['discharged']; out['assumed'] |= set(r['assumed']); out['solver_s'] += r['solver_s']; out['queries'] += r['queries']
            for f in r['failures']: out['failures'].append(dict(f, function=r['key'], member=m))
            if r['status'] in ('unsupported', 'lost'): out['open'].append((m, r['key'], r['status'] + ' ' + r['note']))
    out['wall_s'] = time.time() - t0
    return out

def job(scratch, driver, inp, outp):
    """shapes from a pickle, results as JSON"""
    import pickle
    shapes = pickle.load(open(inp, 'rb'))
    r = run(scratch, driver, shapes, int(os.environ.get('LB_PROCS', '4')))
    r['assumed'] = sorted(map(str, r['assumed']))
    r['failures'] = [dict({k: v for k, v in f.items() if k != 'member'}, member=f['member'].k, src=f['member'].src) for f in r['failures']]
    r['open'] = [(m.k, k, t) for m, k, t in r['open']]
    r['broken'] = [(m.k, t) for m, t in r['broken']]
    json.dump(r, open(outp, 'w'))

if __name__ == '__main__' and sys.argv[1] == 'job': job(*sys.argv[2:])
elif __name__ == '__main__':
    d = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 100
    os.makedirs(d, exist_ok=True)
    drv = os.path.join(d, 'drv', 'debug', 'driver')
    if not os.path.exists(drv): drv = ST.build_driver(os.path.join(d, 'drv'))
    r = run(d, drv, systematic() + rand_shapes(int(os.environ.get('SEED', '1')), n))
    print({k: v for k, v in r.items() if not isinstance(v, (list, set))}, len(r['failures']), 'failures', len(r['open']), 'open', len(r['broken']), 'broken')
    from collections import Counter
    print(Counter(t[:90] for _, t in r['broken']).most_common(8))
    print(Counter(t[:150] for _, _, t in r['open']).most_common(20))
    print(Counter((f['component'][:30], f['got'][:60], f['expected'][:60]) for f in r['failures']).most_common(20))
    if '-v' in sys.argv:
        for f in r['failures'][:5]: print(f['member'].src, {k: v for k, v in f.items() if k != 'member'})
        for m, k, t in r['open'][:4]: print(m.src, k, t)
        for m, t in r['broken'][:4]: print(m.src, t)
