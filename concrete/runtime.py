"""Concrete histories on the real generated code, with expected values computed by a reference
interpreter of the documented semantics (independent of the code under test)."""
import json, os, random, re, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from model import *
from scenarios import SCEN

HEAD = r'''#![allow(warnings)]
pub mod rt {
    use std::cell::RefCell;
    thread_local! { static LOG: RefCell<Vec<&'static str>> = RefCell::new(vec![]); static BAD: RefCell<Vec<(String, String)>> = RefCell::new(vec![]); pub static VFAIL: RefCell<bool> = RefCell::new(false); }
    pub fn log(s: &'static str) { LOG.with(|l| l.borrow_mut().push(s)) }
    pub fn take() -> Vec<&'static str> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }
    pub fn bad(p: &str, m: String) { BAD.with(|b| b.borrow_mut().push((p.to_string(), m))) }
    pub fn bads() -> Vec<(String, String)> { BAD.with(|b| std::mem::take(&mut *b.borrow_mut())) }
    pub fn vfail(b: bool) { VFAIL.with(|v| *v.borrow_mut() = b) }
    thread_local! { static AT: RefCell<String> = RefCell::new("C02".to_string()); }
    pub fn at(p: &str) { AT.with(|a| *a.borrow_mut() = p.to_string()) }
    pub fn whereat() -> String { AT.with(|a| a.borrow().clone()) }
    pub fn failing() -> bool { VFAIL.with(|v| *v.borrow()) }
    #[derive(Debug, PartialEq, Clone)] pub struct P(pub u32);
    #[derive(Debug, PartialEq)] pub struct N(pub u32);
    impl Default for P { fn default() -> P { log("P"); P(0) } }
    impl Default for N { fn default() -> N { log("P"); N(0) } }
    pub struct Q(pub u32);
    pub struct NQ(pub u32);
    impl From<Q> for P { fn from(q: Q) -> P { P(q.0) } }
    impl From<NQ> for N { fn from(q: NQ) -> N { N(q.0) } }
    pub struct R<X>(pub Result<X, u8>);
    macro_rules! tries { ($($t:ty),*) => { $(impl std::convert::TryFrom<R<$t>> for $t { type Error = u8; fn try_from(r: R<$t>) -> Result<$t, u8> { r.0 } })* } }
    tries!(P, N, u32, Vec<P>, Option<P>, Option<Vec<P>>, Option<Option<P>>, Option<u32>);
    #[derive(Debug, PartialEq)] pub enum E { U(String), S(String) }
    impl From<String> for E { fn from(s: String) -> E { E::S(s) } }
    #[macro_export] macro_rules! ck { ($p:expr, $c:expr, $m:expr) => { if !($c) { crate::rt::bad($p, format!("{}: {}", $m, stringify!($c))) } } }
}
'''

# ------------------------------------------------------------------ values
def rv(v):
    k = v[0]
    if k == 'P': return 'P(%d)' % v[1]
    if k == 'N': return 'N(%d)' % v[1]
    if k == 'u': return '%du32' % v[1]
    if k == 'vec': return 'vec![%s]' % ', '.join(map(rv, v[1]))
    if k == 'some': return 'Some(%s)' % rv(v[1])
    if k == 'none': return 'None'
    if k == 'raw': return v[1]
    raise KeyError(v)
def mk(ty, k):
    if ty in ('P', 'T'): return ('P', k)
    if ty == 'N': return ('N', k)
    if ty == 'u32': return ('u', k)
    i = option_inner(ty)
    if i is not None: return ('some', mk(i.replace(' ', ''), k))
    if ty == 'Vec<P>': return ('vec', (('P', k), ('P', k + 1)))
    raise KeyError(ty)
def into_src(ty, v):
    """an expression of another type that converts into v (of type ty)"""
    if ty == 'P': return 'Q(%d)' % v[1]
    if ty == 'N': return 'NQ(%d)' % v[1]
    if ty == 'u32': return '%du8' % v[1]
    if ty == 'T': return rv(v)
    if v[0] == 'some': return rv(v[1])
    if v[0] == 'vec': return '[%s]' % ', '.join(map(rv, v[1]))
    raise KeyError(ty)
def dflt(ty):
    """(value, log) of the type's Default"""
    if ty in ('P', 'T'): return ('P', 0), ['P']
    if ty == 'N': return ('N', 0), ['P']
    if ty == 'u32': return ('u', 0), []
    if option_inner(ty) is not None: return ('none',), []
    return ('vec', ()), []

# ------------------------------------------------------------------ a case
class Case:
    """a modelled struct with run-time meaning for its expressions"""
    def __init__(self, s, ident):
        self.s, self.id = s, ident
        self.fdef = {}        # field -> value of its default expression (logs "d:<field>")
        self.sdef = {}        # field -> value in the struct default (logs "D")
        self.build = {}       # field -> (value, log)
        self.nvs = {}
        self.custom_err = False

def rand_case(rnd, ident, root=None):
    return finish(rand_shape(rnd, ident, root), rnd)

def rand_shape(rnd, ident, root=None):
    """a case whose user expressions are still placeholders"""
    n = rnd.choice([0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 6])
    spat = rnd.choice([None, 'mutable', 'owned', 'owned', 'immutable'])
    owned = spat == 'owned'
    mixed = owned and rnd.random() < .4
    noclone = owned and not mixed and rnd.random() < .5
    names = rnd.sample(['a', 'b', 'r#type', 'value', 'new', 'converted', 'item', 'x1', 'collection', '_u', '__v', 'f', 'self_', 'Q_'], n)
    s = S([], name='Foo', pattern=spat, vis='pub', crate=root)
    c = Case(s, ident)
    gen_used = False
    if rnd.random() < .3: s.default = rnd.choice(['word', 'expr'])
    if rnd.random() < .3: s.try_setter = True
    for k, p in (('into', .2), ('strip_option', .25), ('prefix', .15), ('skip', .1)):
        if rnd.random() < p: s.setter[k] = 'with' if k == 'prefix' else rnd.random() < .8
    for i, nm in enumerate(names):
        ty = rnd.choice(['P', 'P', 'Option<P>', 'Vec<P>', 'Option<Vec<P>>', 'T', 'u32', '::core::option::Option<P>', 'std::option::Option<u32>', 'Option<Option<P>>'] + (['N', 'N'] if noclone else []))
        f = F(nm, ty)
        s.fields.append(f)
        if ty == 'T': gen_used = True
        if rnd.random() < .3 and (mixed or not owned):
            f.pattern = rnd.choice(['mutable', 'immutable', 'owned'])
        elif mixed and i == 0: f.pattern = rnd.choice(['mutable', 'immutable'])
        d = {}
        if rnd.random() < .35: d['into'] = rnd.random() < .8
        if rnd.random() < .4: d['strip_option'] = rnd.random() < .8
        if rnd.random() < .2: d['prefix'] = 'set'
        if rnd.random() < .15: d['name'] = 'put_%s' % unraw(nm)
        if rnd.random() < .15 and ty != 'T': d['skip'] = rnd.random() < .8
        elif rnd.random() < .1: d['custom'] = rnd.random() < .7
        stripped = False
        f.setter = d
        stripped = bool(eff_setter(s, f, 'strip_option')) and option_inner(ty) is not None
        if (ty == 'Vec<P>' or (ty == 'Option<Vec<P>>' and stripped)) and rnd.random() < .7: d['each'] = ('each_%s' % unraw(nm), rnd.choice([None, True, False]))
        f.setter = d or None
        if rnd.random() < .3: f.try_setter = True
        r = rnd.random()
        if r < .3:
            f.default = rnd.choice(['word', 'expr']) if ty != 'T' else 'expr'
        elif r < .45 and ty == 'P' and 'each' not in d:
            # custom type with build expression
            if rnd.random() < .6: f.field_ty = rnd.choice(['u32', 'Vec<P>', 'Option<P>'])
            f.field_build = 'expr'
        elif r < .55 and ty == 'u32':
            f.field_ty = 'u32'
        elif r < .6 and ty == 'P' and owned:
            f.field_ty = 'P'
        elif r < .65 and ty == 'Vec<P>' and owned and 'each' not in d: f.field_ty = 'Vec<P>'
        if f.field_ty and 'custom' in d and d['custom']: pass
        if rnd.random() < .2: f.v = [rnd.choice(['public', 'private'])]
        if rnd.random() < .15: f.field_v = [rnd.choice(['public', 'private'])]
    for f in s.fields:
        if f.ty == 'T' and not field_enabled(s, f) and not f.default and not s.default: f.ty = 'P'
        # a setter that moves out of a borrowed builder at build time would not compile
        if not owned and f.field_ty and not f.field_build and f.field_ty != 'u32': f.field_ty = None
    if any(f.ty == 'T' for f in s.fields):
        s.generics = [('T', 'T', 'ty')]
        if s.default == 'word': s.default = None
        for f in s.fields:
            if f.ty == 'T' and not field_enabled(s, f) and not f.default: f.default = 'expr'
            if f.ty == 'T': f.default = None if f.default == 'word' else f.default
            if f.ty == 'T' and f.default == 'expr': f.ty = 'P'
        if s.default: s.default = None
        for f in s.fields:
            if f.ty == 'T' and not field_enabled(s, f): f.ty = 'P'
        if not any(f.ty == 'T' for f in s.fields): s.generics = []
    r = rnd.random()
    if r < .25: s.error = 'crate::%s::MyErr' % ident; c.custom_err = True
    elif r < .4: s.error = rnd.choice([True, False])
    if s.error is not False and rnd.random() < .45 and not s.generics: s.validate = rnd.choice(['check', 'Self::check'])
    if rnd.random() < .2: s.custom_constructor = True
    if rnd.random() < .2: s.create_empty = 'empty'
    if rnd.random() < .2: s.bf_name = 'finish'
    if rnd.random() < .15: s.bname = 'Maker'
    if rnd.random() < .2: s.derive = ['Debug'] if not s.generics else []
    return c

def finish(c, rnd):
    """give meaning to the expression placeholders"""
    s = c.s
    for i, f in enumerate(s.fields):
        if f.default == 'expr':
            v = mk(f.ty, 500 + 10 * i)
            c.fdef[f.name] = v
            f.default = '{ log("d:%s"); %s }' % (f.name, rv(v))
        if f.field_build == 'expr':
            v = ('P', 700 + 10 * i)
            c.build[f.name] = v
            f.field_build = 'log("b:%s"); %s' % (f.name, rv(v)) if rnd.random() < .5 else '{ log("b:%s"); %s }' % (f.name, rv(v))
        if s.default: c.sdef[f.name] = mk(f.ty, 100 + i)      # k < 256
    if s.default == 'expr':
        s.default = '{ log("D"); Foo { %s } }' % ', '.join('%s: %s' % (f.name, rv(c.sdef[f.name])) for f in s.fields)
    return c

# ------------------------------------------------------------------ reference semantics
def slot_empty(s, f):
    if not field_enabled(s, f): return ('raw', 'std::marker::PhantomData')
    if f.field_ty:
        return dflt(f.field_ty)[0]
    return ('none',)
def empties(s):
    """log of the empty constructor"""
    o = []
    for f in s.fields:
        if field_enabled(s, f) and f.field_ty: o += dflt(f.field_ty)[1]
    return o

def ref_build(c, st, vf):
    """expected (result, log): result is ('ok', {field: value}) | ('uninit', name) | ('invalid',)"""
    s, log = c.s, []
    if s.validate:
        log.append('V')
        if vf: return ('invalid',), log
    if s.default: log.append('D')
    res = {}
    for f in s.fields:
        def default():
            if f.default == 'word':
                v, l = dflt(f.ty); log.extend(l); return v
            if f.default:
                log.append('d:%s' % f.name); return c.fdef[f.name]
            if s.default: return c.sdef[f.name]
            return None
        if not field_enabled(s, f):
            v = default()
            if v is None: v, l = dflt(f.ty); log.extend(l)
        elif f.field_build:
            log.append('b:%s' % f.name); v = c.build[f.name]
        elif f.field_ty: v = st[f.name]
        else:
            x = st[f.name]
            if x == ('none',):
                v = default()
                if v is None: return ('uninit', f.name), log
            else: v = x[1]
        res[f.name] = v
    return ('ok', res), log

def setter_value(s, f, k, stripped, ty):
    v = mk(ty.replace(' ', ''), k)
    slot = ('some', v) if stripped else v
    if not f.field_ty: slot = ('some', slot)
    return v, slot

# ------------------------------------------------------------------ emission
def tags(s, f, kind):
    t = {'set': ['C01'], 'try': ['C07'], 'each': ['C08']}[kind]
    if kind != 'each' and (eff_setter(s, f, 'into') or eff_setter(s, f, 'strip_option')): t = t + ['C09']
    if f.field_ty: t = t + ['C20']
    if f.pattern or sd(f): t = t + ['C11']
    return t

def emit_case(c, rnd, derive_path, nh=6):
    s = c.s
    bn = builder_name(s)
    g = '::<P>' if s.generics else ''
    ctor = '%s%s::%s()' % (bn, g, s.create_empty or 'create_empty')
    o = ['use crate::rt::*; use crate::ck; use std::convert::TryFrom; use std::convert::TryInto;']
    w = o.append
    w(render(s, c.id, derive='Debug, PartialEq, %s' % derive_path + (', Clone' if False else '')))
    if s.default == 'word':
        w('impl Default for Foo { fn default() -> Foo { log("D"); Foo { %s } } }' % ', '.join('%s: %s' % (f.name, rv(c.sdef[f.name])) for f in s.fields))
    if c.custom_err:
        w('#[derive(Debug, PartialEq)] pub enum MyErr { U(String), S(String) }')
        w('impl From<%s::UninitializedFieldError> for MyErr { fn from(e: %s::UninitializedFieldError) -> MyErr { MyErr::U(e.field_name().to_string()) } }' % (c.lib, c.lib))
        w('impl From<String> for MyErr { fn from(s: String) -> MyErr { MyErr::S(s) } }')
    chk = None
    if s.validate:
        # the validator sees the builder as it is: it counts the fields it finds set
        body = 'log("V"); if failing() { Err(format!("bad {}", 7)) } else { Ok(()) }'
        if s.validate == 'check': w('fn check(b: &%s) -> Result<(), String> { %s }' % (bn, body))
        else: w('impl %s { fn check(&self) -> Result<(), String> { %s } }' % (bn, body))
    w('pub fn run() {')
    # constructors
    def checkall(st, who, tg, b='b'):
        for f in s.fields:
            x = st[f.name]
            pre = '%s.%s' % (b, f.name)
            if not field_enabled(s, f):
                w('  { let m: &std::marker::PhantomData<%s> = &%s; ck!("%s C06", std::mem::size_of_val(m) == 0, %s); }' % (inst(f.ty), pre, tg, q('%s %s' % (c.id, who))))
            elif x == ('none',): w('  ck!("%s", %s == None, %s);' % (tg, pre, q('%s %s' % (c.id, who))))
            else: w('  ck!("%s", %s == %s, %s);' % (tg, pre, rv(x), q('%s %s' % (c.id, who))))
    def inst(t): return t.replace('T', 'P') if t == 'T' else t
    for h in range(nh):
        vf = bool(s.validate) and h % 3 == 2
        w('  { vfail(%s); take();' % ('true' if vf else 'false'))
        use_default = not s.custom_constructor and h % 2 == 0
        w('  at("C16");')
        w('  let mut b%s = %s;' % (': %s%s' % (bn, g.replace('::', '')) , ('Default::default()' if use_default else ctor)))
        w('  ck!("C16", take() == vec![%s] as Vec<&str>, "%s constructor log");' % (', '.join(q(x) for x in empties(s)), c.id))
        st = {f.name: slot_empty(s, f) for f in s.fields}
        checkall(st, 'new builder', 'C16')
        ops = []
        for f in s.fields:
            if not setter_enabled(s, f):
                if field_enabled(s, f): ops.append((f, 'direct'))
                continue
            ops.append((f, 'set'))
            if try_setter(s, f): ops += [(f, 'try'), (f, 'tryerr')]
            if sd(f).get('each'): ops += [(f, 'each'), (f, 'each')]
            if sd(f).get('each') and option_inner(f.ty) is not None: ops.append((f, 'somenone'))
        rnd.shuffle(ops)
        if h == 0: ops = []
        elif h == 1: ops = [(f, 'direct' if not setter_enabled(s, f) else 'set') for f in s.fields if field_enabled(s, f)]
        elif h == 3: ops = [x for x in ops] + [x for x in ops[:3]]
        else: ops = ops[:rnd.randrange(0, len(ops) + 1)]
        k = 1 + h * 20
        consumed = False
        for f, op in ops:
            k += 2
            ty, stripped = param_ty(s, f)
            ty = ty.replace(' ', '')
            pat = eff_pattern(s, f)
            who = 'history %d: %s %s' % (h, op, f.name)
            if op == 'direct':
                v, slot = setter_value(s, f, k, False, norm(base_ty(f)).replace(' ', ''))
                w('  b.%s = %s;' % (f.name, rv(slot))); st[f.name] = slot; continue
            if op == 'somenone':
                slot = ('some', ('none',))
                w('  b.%s = %s;' % (f.name, rv(slot))); st[f.name] = slot; continue
            tg = ' '.join(tags(s, f, 'try' if op == 'tryerr' else op))
            name = setter_name(s, f)
            if op == 'set':
                v, slot = setter_value(s, f, k, stripped, ty)
                arg = into_src(ty, v) if eff_setter(s, f, 'into') and rnd.random() < .7 else rv(v)
                call = '%s(%s)' % (name, arg)
            elif op in ('try', 'tryerr'):
                v, slot = setter_value(s, f, k, stripped, ty)
                tn = inst(ty)
                call = 'try_%s(R::<%s>(%s))' % (unraw(name), tn, 'Ok(%s)' % rv(v) if op == 'try' else 'Err(%du8)' % (k % 200))
            else:
                nm, into = sd(f)['each']
                item = ('P', k)
                call = '%s(%s)' % (nm, 'Q(%d)' % k if into else rv(item))
                if into: call = call.replace('(', '::<P, Q>(', 1) if False else call
                cur = st[f.name]
                inner = cur[1] if cur[0] == 'some' else None
                if option_inner(f.ty) is not None and inner is not None: inner = inner[1] if inner[0] == 'some' else None
                items = inner[1] if inner else ()
                slot = ('vec', tuple(items) + (item,))
                if option_inner(f.ty) is not None: slot = ('some', slot)
                slot = ('some', slot)
                if into: call = call.replace('%s(' % nm, '%s::<P, Q>(' % nm, 1)
            w('  at("%s");' % tg)
            new = dict(st)
            if op != 'tryerr': new[f.name] = slot
            if op in ('set', 'each'):
                if pat == 'owned': w('  b = b.%s;' % call)
                elif pat == 'mutable':
                    w('  { let p = &b as *const _; let r: &mut %s%s = b.%s; ck!("%s", std::ptr::eq(p, r as *const _), %s); }' % (bn, g.replace('::', ''), call, tg, q('%s %s returns another builder' % (c.id, who))))
                else:
                    w('  let nb: %s%s = b.%s;' % (bn, g.replace('::', ''), call))
                    checkall(st, who + ' changed its receiver', tg)
                    w('  b = nb;')
            elif op == 'try':
                if pat == 'owned': w('  b = b.%s.expect("try");' % call)
                elif pat == 'mutable':
                    w('  { let p = &b as *const _; let r: &mut %s%s = b.%s.expect("try"); ck!("%s", std::ptr::eq(p, r as *const _), %s); }' % (bn, g.replace('::', ''), call, tg, q('%s %s returns another builder' % (c.id, who))))
                else:
                    w('  let nb: %s%s = b.%s.expect("try");' % (bn, g.replace('::', ''), call))
                    checkall(st, who + ' changed its receiver', tg)
                    w('  b = nb;')
            else:
                w('  match b.%s { Ok(_) => bad("%s", %s.to_string()), Err(e) => ck!("%s", e == %du8, %s) }' % (call, tg, q('%s %s succeeded' % (c.id, who)), tg, k % 200, q('%s %s error' % (c.id, who))))
                if pat == 'owned': consumed = True; break
            st = new
            checkall(st, who, tg)
        if not consumed and not s.bf_skip:
            res, log = ref_build(c, st, vf)
            owned = struct_pattern(s) == 'owned'
            for rep in range(1 if owned else 2):
                who = 'history %d: build %d' % (h, rep)
                w('  at("%s"); take();' % 'C02 C03 C04 C05 C06 C20')
                w('  let r = b.%s();' % (s.bf_name or 'build'))
                lt = 'C05 C04' if s.validate else 'C04'
                w('  { let l = take(); ck!("%s", l == vec![%s] as Vec<&str>, format!("%s, log {:?}, expected %s", l)); }' % (lt + ' C02', ', '.join(q(x) for x in log), '%s %s' % (c.id, who), ' '.join(log)))
                if res[0] == 'ok':
                    w('  match r { Err(e) => bad("C02%s", format!("%s fails: {:?}", e)), Ok(x) => {' % (' C05' if s.validate else '', '%s %s' % (c.id, who)))
                    for f in s.fields:
                        en = field_enabled(s, f)
                        t = ['C02']
                        if not en: t.append('C06')
                        if f.field_ty or f.field_build: t.append('C20')
                        if (f.default or s.default) and not (en and st[f.name] != ('none',) and not f.field_build): t.append('C04')
                        if (f.default or s.default): t.append('C04')
                        w('    ck!("%s", x.%s == %s, %s);' % (' '.join(sorted(set(t))), f.name, rv(res[1][f.name]), q('%s %s field %s' % (c.id, who, f.name))))
                    w('  } }')
                elif res[0] == 'uninit':
                    if c.custom_err: pt, dis = 'MyErr::U(ref n)', None
                    else: pt, dis = '%s::UninitializedField(n)' % error_name(s), 1
                    w('  match r { Err(%s) => { ck!("C03 C19", n == %s, %s);' % (pt, q(res[1]), q('%s %s reported name' % (c.id, who))))
                    w('  }, r => bad("C03", format!("%s: expected missing %s, got {:?}", r)) }' % ('%s %s' % (c.id, who), res[1]))
                    if dis: w('  { let e: %s = %s::UninitializedFieldError::from(%s).into(); ck!("C17 C19", e.to_string() == %s, %s); fn er<E: std::error::Error>(_: &E) {} er(&e); }' % (error_name(s), c.lib, q(res[1]), q('`%s` must be initialized' % res[1]), q('%s message' % c.id)))
                else:
                    if c.custom_err: pt = 'MyErr::S(ref n)'
                    else: pt = '%s::ValidationError(ref n)' % error_name(s)
                    w('  match r { Err(%s) => { ck!("C05 C17", n == "bad 7", %s); }, r => bad("C05", format!("%s: expected the validator\'s error, got {:?}", r)) }' % (pt, q('%s %s error' % (c.id, who)), '%s %s' % (c.id, who)))
                    if not c.custom_err: w('  { let e: %s = String::from("a{}b").into(); ck!("C17", e.to_string() == "a{}b", %s); }' % (error_name(s), q('%s message' % c.id)))
                if not owned: checkall(st, who + ' changed the builder', 'C02')
        w('  }')
    w('}')
    return '\n'.join(o)

REPO = os.environ.get('VERIF_REPO', '/repo')
def write_crate(d, cases, seed, bins=4, repo=REPO):
    """one binary per group of cases; the library is a dependency called `db`, and `derive_builder` is an alias"""
    src = os.path.join(d, 'src')
    shutil.rmtree(src, ignore_errors=True); os.makedirs(src)
    groups = {'b%d' % k: [c.id for c in cases[k::bins]] for k in range(min(bins, len(cases)))}
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "rt"\nversion = "0.0.0"\nedition = "2021"\nautobins = false\n[workspace]\n[dependencies]\ndb = { package = "derive_builder", path = "%s/derive_builder" }\n[profile.dev]\ndebug = false\nincremental = false\n' % repo)
        for g in groups: f.write('[[bin]]\nname = "%s"\npath = "src/%s.rs"\n' % (g, g))
    lock = os.path.join(repo, 'Cargo.lock')
    if not os.path.exists(lock): lock = '/opt/vp/Cargo.lock'
    if os.path.exists(lock): shutil.copy(lock, os.path.join(d, 'Cargo.lock'))
    for c in cases:
        with open(os.path.join(src, c.id + '.rs'), 'w') as f: f.write(emit_case(c, random.Random(repr((seed, c.id))), c.lib.lstrip(':') + '::Builder'))
    for k, (i, (_, text)) in enumerate(SCEN.items()):
        groups['b%d' % (k % len(groups))].append(i)
        with open(os.path.join(src, i + '.rs'), 'w') as f: f.write(text)
    return groups

def write_main(src, g, ids):
    m = [HEAD, 'extern crate db as derive_builder;'] + ['mod %s;' % i for i in ids]
    m.append('fn main() { std::panic::set_hook(Box::new(|_| {}));')
    for i in ids:
        m.append('  if let Err(p) = std::panic::catch_unwind(|| %s::run()) { println!("PANIC %s\t{}\t{:?}", rt::whereat(), p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()))); } for (p, m) in rt::bads() { println!("BAD %s\\t{}\\t{}", p, m); } println!("DONE %s");' % (i, i, i, i))
    m.append('}')
    with open(os.path.join(src, g + '.rs'), 'w') as f: f.write('\n'.join(m))

def run_crate(d, target, groups, timeout=400):
    """-> (failures [(props, case, text)], executed ids)"""
    bad, groups = [], {g: list(i) for g, i in groups.items()}
    for attempt in range(4):
        for g, ids in groups.items(): write_main(os.path.join(d, 'src'), g, ids)
        cmd = '. /opt/vp/common.sh >/dev/null 2>&1; cd %s && cargo build --offline -q --keep-going --target-dir %s --message-format=json' % (d, target)
        r = subprocess.run(['bash', '-c', cmd], capture_output=True, text=True, timeout=timeout)
        if r.returncode == 0: break
        broken = {}
        for l in r.stdout.splitlines():
            try: m = json.loads(l)
            except ValueError: continue
            if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error': continue
            def files(o):
                if isinstance(o, dict):
                    if 'file_name' in o: yield o['file_name']
                    for v in o.values(): yield from files(v)
                elif isinstance(o, list):
                    for v in o: yield from files(v)
            for x in sorted({x.group(1) for n in files(m['message']) for x in [re.match(r'^src/(case_\w+)\.rs$', n)] if x}):
                broken.setdefault(x, []).append(m['message']['message'])
        if not broken: raise RuntimeError('runtime crate does not build: ' + (r.stderr + r.stdout)[-1500:])
        for i, ms in broken.items():
            bad.append((['compile'], i, 'does not compile: ' + '; '.join(ms[:3])))
            for g in groups:
                if i in groups[g]: groups[g].remove(i)
    else: raise RuntimeError('runtime crate keeps failing to build')
    done = set()
    ps = {g: subprocess.Popen([os.path.join(target, 'debug', g)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for g in groups}
    for g, p in ps.items():
        try: out, _ = p.communicate(timeout=120)
        except subprocess.TimeoutExpired: p.kill(); out, _ = p.communicate()
        for l in out.splitlines():
            if l.startswith('DONE '): done.add(l[5:])
            elif l.startswith('BAD '):
                i, p_, m = l[4:].split('\t', 2); bad.append((p_.split(), i, m))
            elif l.startswith('PANIC '):
                i, p_, m = l[6:].split('\t', 2); bad.append((p_.split(), i, 'panics: ' + m))
        for i in groups[g]:
            if i not in done: bad.append((['C02'], i, 'did not finish'))
    return bad, done

def make_cases(seed, n, root, lib):
    rnd = random.Random(repr(('rt', seed, root)))
    o = []
    for k in range(n):
        c = rand_case(rnd, 'case_%s%d' % (lib.lstrip(':'), k), root)
        c.lib = lib
        o.append(c)
    return o

def suite(d, target, seed, n, repo=REPO):
    cs = make_cases(seed, n // 2, None, '::derive_builder') + make_cases(seed, n - n // 2, '::db', '::db')
    groups = write_crate(d, cs, seed, repo=repo)
    bad, done = run_crate(d, target, groups)
    return cs, bad, done

if __name__ == '__main__':
    import time
    t = time.time()
    d = '/tmp/w/rt'; os.makedirs(d, exist_ok=True)
    cs, bad, done = suite(d, '/tmp/w/rtt', 1, int(sys.argv[1]) if len(sys.argv) > 1 else 60)
    print(len(cs), len(done), 'done', time.time() - t)
    for b in bad[:25]: print(b)
