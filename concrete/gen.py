"""Random and systematic derive inputs."""
import glob, os, random, re
from model import *

TYPES = ['u32', 'String', 'Vec<u8>', 'Option<u32>', 'Option<Vec<String>>', '::std::option::Option<u8>', 'std::option::Option<String>',
         'core::option::Option<Vec<u8>>', 'option::Option<u8>', 'my::Option<u8>', 'my::std::option::Option<u8>', '&\'static str', '(u8, Option<u8>)', '[u8; 4]', 'Box<dyn Fn(u8) -> Option<u8>>',
         'fn(u8) -> u8', 'Option<Option<u8>>', 'Result<u8, String>', 'std::collections::HashMap<String, Option<u8>>', 'Optional<u8>', 'Option2<u8>',
         'alloc::option::Option<u8>', 'std::option::Maybe<u8>', 'core::opt::Option<u8>', 'Option', '(Option<u8>)', 'Self::Option<u8>', '<u8 as Tr>::Option<u8>', "Option<&'static str>", '::core::option::Option<(u8, u8)>',
         '!', '*const u8', 'impl_::X', 'std::Option<u8>', 'std::result::Option<u8>']
NAMES = ['alpha', 'beta', 'gamma_ray', 'x', '_under', 'r#type', 'r#match', 'value', 'new', 'builder', 'item', 'long_field_name_with_many_parts', 'camelCase', 'f0', 'try_it', 'each', 'default', 'name', 'ñandú', 'self_', 'with_x', 'b', 'converted', 'description', 'Upper', '_phantom', '_marker', 'phantom']
SNAMES = ['Foo', 'Channel', 'A', 'r#Type', 'LongStructNameHere', 'lower_case', 'FooBuilder', 'Ünï']
PREFIX = ['with', 'set', 'r#in', 'w', '_p']
VISES = ['pub', '', 'pub(crate)', 'pub(super)', 'pub(in crate::a)', 'crate']
EXPRS = ['word', '42', 'Default::default()', 'vec![1, 2, (3)]', 'self.helper()?', '{ let x = 1; x + 1 }', '"a".to_string()', 'Some(|a: &u8| -> bool { *a == 1 && !false })', "'c'", 'f::<Vec<u8>>(1..=2)', 'if a { [1, 2] } else { b[0] }', 'match z { 1 | 2 => x!{a => b}, _ => {} }',
         'const { 1 + 2 }', 'unsafe { f() }', "'l: { break \'l 1 }", "'m: loop { break \'m 2 }", 'loop { break 3 }', 'while a {}', 'for _ in 0..1 {}', 'async { 1 }', 'async move { x }', '(1, )', '(1)', '{ { 2 } }', '{}', '()', '-1', '!a', '&a', '&mut a', '*a', 'a = 1', 'a..', 'return 3', 'a as u8', '[0; 3]',
         'move || { 1 }', 'A { b: 1, ..c }', 'a.await', 'a.0', 'if let Some(x) = y { x } else { z }', 'unsafe { let a = 1; a }', '#[allow(x)] { 1 }', 'x!()', 'x!{ a }', 'a?', "break 'x 1", 'let_ + 1', '{ fn g() {} g() }', '{ use a::b; b }', '{ x! { 1 } }', '{ 1; }', '<u8 as Default>::default()', 'r#type', '"a"', '\'a\'', '1.5', 'true',
         '1 + 1 // two', 'f(/* one */ 2) // "three"', '// four\n5', '6 // a\n + 7 // b', '"//" // c', '{ 8 } // }']
STMTS = ['let a = 1; a', 'let mut v = vec![]; v.push(1); v', 'println!("{}", 1);', 'return Err(x.into())', 'fn g() -> u8 { 1 } g()', 'use a::b; b', '{ 1 } { 2 }', ';', '1; ; 2', 'x! { a } 3', 'if a { return 1; } 2', '#[cfg(x)] let y = 1; y', 'unsafe { 1 }; 2', 'const Q: u8 = 1; Q', 'let a = 1; // x\n a // y', 'g(); // }']
GENS = [[], [], [], [('T', 'T', 'ty')], [('T: Tr + ?Sized', 'T', 'ty')], [("'a", "'a", 'lt'), ('T', 'T', 'ty')], [("'a", "'a", 'lt')], [('const N: usize', 'N', 'const')],
        [("'a", "'a", 'lt'), ("'b: 'a", "'b", 'lt'), ('T: Clone', 'T', 'ty'), ('U: Iterator<Item = T>', 'U', 'ty'), ('const N: usize', 'N', 'const')], [('T', 'T', 'ty'), ('U', 'U', 'ty'), ('V', 'V', 'ty')], [('T: ', 'T', 'ty')]]
# bounds of every form: a generator must not look into them
BOUNDS = ['Clone', 'std::clone::Clone', '::core::clone::Clone', 'my::Clone', 'Copy', 'Clone + Copy', '?Sized', 'Send + ?Sized', "'static", "Tr + 'static", 'Fn(&u8) -> u8', "for<'x> Fn(&'x u8) -> T2", 'Iterator<Item = u8>', 'Into<Option<u8>>', '(Tr)', 'a::B<1> + Clone', '~const Tr', 'Default + Clone + Tr + Ord', 'Tr<Clone>', 'Clone2', 'CloneNot']
GENS2 = [[('T: ' + b, 'T', 'ty')] for b in BOUNDS] + [[('T: ' + b, 'T', 'ty'), ('U: ' + c, 'U', 'ty'), ('V', 'V', 'ty')] for b, c in zip(BOUNDS, BOUNDS[3:] + BOUNDS[:3])] + [
    [('T = u8', 'T', 'ty')], [('T: Clone = String', 'T', 'ty'), ('U = Vec<T>', 'U', 'ty')], [('T', 'T', 'ty'), ('const N: usize = 1', 'N', 'const')], [('const N: usize', 'N', 'const'), ('T', 'T', 'ty')], [('T: Iterator<Item = u8> = X<u8>', 'T', 'ty')],
    [("'a", "'a", 'lt'), ('const N: usize', 'N', 'const')], [("'a", "'a", 'lt'), ("'b: 'a", "'b", 'lt'), ("T: 'a + Tr<'b>", 'T', 'ty')], [('Clone', 'Clone', 'ty')], [('const C: u8', 'C', 'const'), ('Clone: my::Clone', 'Clone', 'ty'), ('const D: bool', 'D', 'const')]]
WHERES = [[], ['T: Clone'], ['T: std::clone::Clone', 'Vec<T>: Clone'], ["for<'z> T: Tr<'z>"], ['T: Sized', 'u8: Into<T>', '[T; 3]: Default']]
FATTR = ['#[doc = "one"]', '#[doc = " two"]', '#[cfg(all())]', '#[allow(dead_code, non_snake_case)]', '#[builder_field_attr(serde(default = "x"))]', '#[builder_field_attr(doc = "three")]',
         '#[builder_setter_attr(inline(always))]', '#[builder_setter_attr(allow(unused))]', '#[builder_setter_attr(doc = "set")]', '#[serde(skip)]', '#[doc(hidden)]', '#[builder_field_attr[cfg(feature = "q")]]', '#[builder_setter_attr{deprecated}]', '#[cold]', '#[builder_struct_attr(derive(X))]']
SATTR = ['#[doc = "struct doc"]', '#[cfg(all())]', '#[allow(missing_docs)]', '#[builder_struct_attr(derive(PartialOrd))]', '#[builder_struct_attr(serde(rename_all = "x"))]', '#[builder_impl_attr(cfg(feature = "w"))]', '#[builder_impl_attr(allow(x, y))]', '#[serde(deny)]',
         '#[allow(two)]', '#[builder_struct_attr(doc = "sd")]', '#[builder_field_attr(zz)]']
PATTERNS = ['owned', 'mutable', 'immutable']
CRATES = ['::my::root', 'crate::zz', 'db', '::x', 'self::a::b::c']

def vis(rnd, p=.3):
    if rnd.random() > p: return []
    return [rnd.choice(['public', 'private', ('vis', rnd.choice(VISES[:5])), ('vis', 'pub(crate)')])]

def rand_struct(rnd, tag='', nf=None, no_conflicts=True):
    n = nf if nf is not None else rnd.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 8])
    names = rnd.sample(NAMES, n)
    fields = []
    for nm in names:
        d = {}
        mode = rnd.random()
        setter = None
        if mode < .1: setter = 'word'
        elif mode < .6:
            for k, p in (('prefix', .3), ('name', .2), ('into', .35), ('strip_option', .4), ('skip', .2), ('custom', .12), ('each', .25)):
                if rnd.random() > p: continue
                d[k] = rnd.choice(PREFIX) if k == 'prefix' else rnd.choice(['put_%s' % unraw(nm), 'go', 'r#use']) if k == 'name' else \
                       ('each_%s' % unraw(nm), rnd.choice([None, True, False])) if k == 'each' else rnd.random() < .7
            setter = d or None
        default = rnd.choice(EXPRS) if rnd.random() < .3 else None
        fty = fb = None
        if default is None or not no_conflicts:
            if rnd.random() < .15: fty = rnd.choice(TYPES)
            if rnd.random() < .15: fb = rnd.choice(EXPRS[1:] + STMTS)
        fields.append(F(nm, rnd.choice(TYPES), fvis=rnd.choice(['', 'pub', 'pub(crate)']), attrs=rnd.sample(FATTR, rnd.choice([0, 0, 0, 1, 2, 4, 6])), setter=setter, default=default, field_ty=fty, field_build=fb,
                        pattern=rnd.choice(PATTERNS) if rnd.random() < .25 else None, v=vis(rnd), try_setter=rnd.random() < .2, field_v=vis(rnd, .2)))
    ss = {}
    for k, p in (('prefix', .2), ('into', .3), ('strip_option', .3), ('skip', .2)):
        if rnd.random() < p: ss[k] = rnd.choice(PREFIX) if k == 'prefix' else rnd.random() < .7
    err = None
    r = rnd.random()
    if r < .15: err = rnd.choice(['MyError', 'crate::err::E', '::x::Y<u8>'])
    elif r < .25: err = True
    elif r < .35: err = False
    validate = rnd.choice(['Self::check', 'validate', 'crate::v::check::<u8>']) if rnd.random() < .3 else None
    if validate and err is False and no_conflicts: validate = None
    gens = rnd.choice(GENS)
    where = rnd.choice([[], [], ['%s: Sized' % gens[-1][1]]]) if gens and gens[-1][2] == 'ty' else []
    return S(fields, name=rnd.choice(SNAMES), vis=rnd.choice(VISES[:4]), generics=gens, where=where, attrs=rnd.sample(SATTR, rnd.choice([0, 0, 1, 2, 4, 6])),
             bname=rnd.choice([None, None, None, 'Maker', 'r#MakerX', 'Q']), crate=rnd.choice([None, rnd.choice(CRATES)]), pattern=rnd.choice([None, None] + PATTERNS), bf_skip=rnd.random() < .1,
             bf_name=rnd.choice([None, None, 'finish', 'r#final']), validate=validate, bf_v=vis(rnd), error=err, derive=rnd.choice([[], [], ['Debug'], ['Debug', 'PartialEq', 'my::Trait'], ['Eq']]),
             custom_constructor=rnd.random() < .2, create_empty=rnd.choice([None, None, 'empty', 'r#box']), setter=ss, default=rnd.choice(EXPRS) if rnd.random() < .3 else None, v=vis(rnd), no_std=rnd.random() < .2,
             try_setter=rnd.random() < .2, field_v=vis(rnd, .2), tag=tag)

def systematic():
    """every option at both levels on its own and in pairs, one input per combination"""
    o = []
    tri = [None, True, False]
    # skip/custom/implied enable lattice
    for ss in tri:
        for w in (None, 'word'):
            o.append(S([F('a', 'u8', setter=w)], setter={} if ss is None else {'skip': ss}))
        for sk in tri:
            for cu in tri:
                for extra in ({}, {'prefix': 'w'}, {'name': 'zz'}, {'into': True}, {'into': False}, {'strip_option': False}, {'each': ('e', None)}):
                    d = dict(extra)
                    if sk is not None: d['skip'] = sk
                    if cu is not None: d['custom'] = cu
                    o.append(S([F('a', 'Option<Vec<u8>>', setter=d or None), F('b', 'u8')], setter={} if ss is None else {'skip': ss}))
    # into / strip_option at both levels x types x pattern x try x each
    for a in tri:
        for b in tri:
            for c in tri:
                for d in tri:
                    for i, ty in enumerate(('Option<Vec<u8>>', 'Vec<u8>')):
                        fs = {k: v for k, v in (('into', a), ('strip_option', b)) if v is not None}
                        st = {k: v for k, v in (('into', c), ('strip_option', d)) if v is not None}
                        o.append(S([F('a', ty, setter=fs or None, try_setter=True), F('b', ty, setter=dict(fs, each=('e', bool(i)))), F('c', 'Option<u8>')], setter=st, pattern=PATTERNS[len(o) % 3]))
    for ty in TYPES:
        for into in (False, True):
            o.append(S([F('a', ty, setter={'strip_option': True, 'into': into}, try_setter=True)]))
            o.append(S([F('a', 'u8', field_ty=ty, field_build='x', setter={'strip_option': True, 'into': into}, try_setter=True)]))
    # patterns
    for p in [None] + PATTERNS:
        for q1 in [None] + PATTERNS:
            for q2 in [None] + PATTERNS:
                o.append(S([F('a', 'u8', pattern=q1, try_setter=True), F('b', 'Vec<T>', pattern=q2, setter={'each': ('e', None)}), F('c', 'u8')], pattern=p, generics=[('T', 'T', 'ty')], derive=['Debug'] if q1 else []))
        for n in (3, 6):
            for k in range(n):
                o.append(S([F('f%d' % i, 'u8', pattern='immutable' if i == k else 'owned') for i in range(n)], pattern=p))
    # names that meet other names
    for ea in ('alpha', 'beta', 'try_alpha', 'put', 'build_', 'Foo'):
        for tr in (False, True):
            for nm in ('put', None, 'beta'):
                for pre in (None, 'w'):
                    for p in ('private', 'public', None):
                        if ea == nm or (ea == 'alpha' and not nm and not pre) or (ea == 'try_alpha' and tr and not nm and not pre): continue
                        d = {k: v for k, v in (('name', nm), ('prefix', pre)) if v}
                        o.append(S([F('alpha', 'Vec<u8>', setter=dict(d, each=(ea, p == 'public' or None)), try_setter=tr, v=[p] if p else []), F('gamma', 'u8', setter={'name': 'zz'})], generics=[]))
    # custom setters, defaults and patterns
    for p in [None] + PATTERNS:
        for fp in (None, 'immutable'):
            for d in (None, 'word', '1'):
                for sdf in (None, 'word', 'x()'):
                    for st in ({'custom': True}, {'custom': False}, {'custom': True, 'skip': False}, {'custom': True, 'into': True, 'strip_option': True}):
                        o.append(S([F('a', 'Option<u8>', setter=st, default=d, pattern=fp, try_setter=True), F('b', 'u8', setter=st)], default=sdf, pattern=p))
    # names
    for nm in NAMES:
        for pre in (None, 'with', 'r#in'):
            for spre in (None, 'set'):
                for ex in (None, 'put', 'r#do'):
                    d = {k: v for k, v in (('prefix', pre), ('name', ex)) if v}
                    o.append(S([F(nm, 'u8', setter=d or None, try_setter=True), F('zz', 'u8')], setter={'prefix': spre} if spre else {}))
    for sn in SNAMES:
        for bn in (None, 'Maker', 'r#Mk'):
            for err in (None, 'E', True, False):
                for bf in (None, 'finish'):
                    o.append(S([F('a', 'u8')], name=sn, bname=bn, error=err, bf_name=bf, create_empty='mk' if bf else None))
    # visibility
    V = [[], ['public'], ['private'], [('vis', 'pub(crate)')]]
    for a in V:
        for b in V:
            for c in V:
                o.append(S([F('a', 'u8', v=b, field_v=c, setter={'each': ('e', None)}, try_setter=True), F('s', 'u8', v=b, field_v=c, setter={'skip': True}), F('z', 'u8')], v=a, bf_v=c, field_v=b, vis='pub(super)'))
                o.append(S([F('a', 'u8', v=a)], bf_v=b, field_v=c, vis=''))
    for sv in VISES + ['pub(in self)', 'pub(self)', 'pub(in super)', 'pub(in crate)', 'pub(in self::super)', 'pub(in crate::a::b)']:
        if sv == 'crate': continue
        for a in V:
            o.append(S([F('a', 'u8', fvis=sv), F('b', 'u8', fvis=sv, setter={'skip': True}), F('c', 'Vec<u8>', v=a, field_v=[('vis', sv)], setter={'each': ('e', None)}, try_setter=True)], v=a, vis=sv))
            o.append(S([F('a', 'u8', v=[('vis', sv)]), F('b', 'u8', fvis='pub')], v=[('vis', sv)], bf_v=a, vis='pub'))
    # defaults
    D = [None, 'word', '1 + 2', 'let q = 3; q']
    for a in D:
        for b in D:
            for sk in (None, True, False):
                for p in PATTERNS:
                    o.append(S([F('a', 'u8', default=b, setter=None if sk is None else {'skip': sk}), F('n', 'u8'), F('r#in', 'u8', setter=None if sk is None else {'skip': sk}), F('c', 'u8', field_build='z()', setter=None if sk is None else {'skip': sk}),
                                F('d', 'u8', field_ty='Qq<u8>', setter=None if sk is None else {'skip': sk})], default=a, pattern=p, validate='Self::v' if sk is False else None))
    # custom field types
    for ty in (None, 'Option<u8>', 'Bb'):
        for bu in (None, '1', 'self.z.build()?'):
            for d in ({}, {'into': True}, {'strip_option': True}, {'skip': True}, {'custom': True}, {'into': True, 'strip_option': True}):
                for p in PATTERNS:
                    o.append(S([F('z', 'u8', field_ty=ty, field_build=bu, setter=d or None, try_setter=True), F('y', 'u8')], pattern=p))
    # errors
    for err in (None, True, False, 'E'):
        for nostd in (False, True):
            for va in (None, 'v'):
                if va and err is False: continue
                for v in V:
                    o.append(S([F('a', 'u8')], error=err, no_std=nostd, validate=va, v=v, bf_skip=nostd and not va))
    # constructor, derive, generics, attributes
    for cc in (False, True):
        for ce in (None, 'mk'):
            for g in GENS:
                for p in PATTERNS:
                    o.append(S([F('a', 'u8', setter={'skip': cc}), F('b', 'u8', field_ty='X'), F('c', 'u8')], custom_constructor=cc, create_empty=ce, generics=g, pattern=p, derive=['Debug', 'PartialEq', 'Eq'][:len(g)], where=['%s: Sized' % g[-1][1]] if g and g[-1][2] == 'ty' else []))
    k = 0
    for g in GENS2:
        for p in PATTERNS + [None]:
            k += 1
            tys = [x[1] for x in g if x[2] == 'ty']
            o.append(S([F('a', 'Foo2<%s>' % ', '.join(x[1] for x in g), try_setter=k % 3 == 0), F('b', 'Vec<u8>', setter={'each': ('e', None)} if k % 2 else None, pattern=PATTERNS[k % 5] if k % 5 < 3 else None)], generics=g, pattern=p,
                       where=[w.replace('T', tys[-1]) for w in WHERES[k % 5]] if tys and tys[-1] in 'TUV' else [], custom_constructor=k % 7 == 0))
    # where clauses of a struct without type parameters
    for g in ([], [("'a", "'a", 'lt')], [('const N: usize', 'N', 'const')]):
        for w in (['u8: Copy'], ['String: Clone', 'Vec<u8>: Default'], ["for<'z> &'z str: Into<String>"]):
            for k, p in enumerate(PATTERNS + [None]):
                o.append(S([F('a', 'u8', try_setter=k % 2 == 0), F('b', 'Vec<u8>', setter={'each': ('e', None)}), F('c', 'u8', default='word')], generics=g, where=w, pattern=p, custom_constructor=k == 1, bf_skip=k == 2))
    rnd = random.Random(7)
    for k in range(60):
        fa = [rnd.choice(FATTR) for _ in range(k % 7)]
        sa = [rnd.choice(SATTR) for _ in range(k % 5)]
        o.append(S([F('a', 'Vec<u8>', attrs=fa, setter={'each': ('e', None)}, try_setter=True), F('b', 'u8', attrs=fa[::-1], setter={'skip': True}), F('c', 'u8')], attrs=sa))
    for c in [None] + CRATES:
        for p in PATTERNS:
            o.append(S([F('a', 'Option<Vec<u8>>', setter={'each': ('e', True), 'strip_option': True, 'into': True}, try_setter=True), F('b', 'u8', setter={'skip': True}), F('c', 'u8', default='word'), F('d', 'Vec<u8>', setter={'each': ('e2', False)}), F('e0', 'u8')],
                       crate=c, pattern=p, default='word' if p == 'owned' else None))
    # marker fields, and names that occur in the generated code
    for nm in ('_phantom', '_marker', 'phantom', '__phantom', '_', 'marker', 'PhantomData', 'value', 'new', 'converted', 'collection', 's', 'f', 'x', 'this', 'create_empty', 'Clone', 'T'):
        if nm == '_': continue
        for ty in ('PhantomData<T>', 'std::marker::PhantomData<fn() -> T>', 'u8', '()'):
            for st in ({'skip': True}, None, {'custom': True}):
                for d in (None, 'word', 'PhantomData'):
                    k += 1
                    if k % 2 and ty in ('u8', '()'): continue
                    o.append(S([F('a', 'u8', setter={'skip': True}), F(nm, ty, setter=st, default=d, try_setter=True), F('b', 'u8')], generics=[('T', 'T', 'ty')], pattern=[None, 'owned', 'immutable'][k % 3], default='word' if k % 5 == 0 else None))
    for n in (0, 1, 2, 5, 13):
        o.append(S([F('f%d' % i, 'u%d' % (8 << (i % 4)), setter=[None, {'skip': True}, {'into': True}, {'name': 'n%d' % i}][i % 4], default=[None, None, 'word'][i % 3]) for i in range(n)]))
        o.append(S([F('g%d' % (n - i), 'T%d' % i) for i in range(n)], pattern='owned'))
    for e in EXPRS[1:] + STMTS:
        o.append(S([F('a', 'u8', default=e), F('b', 'u8', field_build=e)], default=e))
    return o

CONF = [[], ['public'], ['private'], [('vis', 'pub')], ['public', 'private'], ['public', ('vis', 'pub(crate)')], [('vis', ''), 'private'], ['private', 'public', ('vis', 'pub')], [('vis', 'pub'), 'public']]
BADC = ['()', '(a, b)', '(derive(X), repr(C))', '("x")', '(1 + 2)', '(a b)', '(a,)', '{}', '[a, b]', '(a = )', '(# [a])', '(a(b) c)']
GOODC = ['(a::b)', '(::a::b::c(d, e))', '(a = "x")', '[a(b, c)]', '{ a }', '(a{b})', '(doc = "p")', '(a(b = 1 + 2))']
def conflicts():
    o = []
    for v in CONF:
        o.append(S([F('a', 'u8')], v=v)); o.append(S([F('a', 'u8')], bf_v=v)); o.append(S([F('a', 'u8')], field_v=v))
        o.append(S([F('a', 'u8', v=v), F('b', 'u8')])); o.append(S([F('b', 'u8'), F('a', 'u8', field_v=v)]))
    for df in (None, 'word', '1'):
        for bu in (None, '1', 'x; y'):
            for ty in (None, 'u8'):
                for sk in (None, True, False):
                    o.append(S([F('a', 'u8', default=df, field_build=bu, field_ty=ty, setter=None if sk is None else {'skip': sk}), F('b', 'u8', default=df)], default=df))
    for va in (None, 'v'):
        for err in (None, True, False, 'E'):
            for sk in (False, True):
                o.append(S([F('a', 'u8')], validate=va, error=err, bf_skip=sk))
    rnd = random.Random(5)
    for k in range(250):
        s = rand_struct(rnd, nf=rnd.choice([0, 1, 2, 3]))
        for f in s.fields:
            if rnd.random() < .4: f.v = rnd.choice(CONF)
            if rnd.random() < .4: f.field_v = rnd.choice(CONF)
            if rnd.random() < .3: f.default = rnd.choice(['word', '1', None])
            if rnd.random() < .3: f.field_ty = 'u8'
            if rnd.random() < .3: f.field_build = 'u8'
            if rnd.random() < .2: f.attrs = f.attrs + [rnd.choice(['#[builder_field_attr]', '#[builder_setter_attr]', '#[builder_setter_attr = "x"]', '#[builder_field_attr = 1]'])]
        if rnd.random() < .3: s.v = rnd.choice(CONF)
        if rnd.random() < .3: s.bf_v = rnd.choice(CONF)
        if rnd.random() < .3: s.field_v = rnd.choice(CONF)
        if rnd.random() < .3: s.error, s.validate = rnd.choice([True, False]), 'v'
        if rnd.random() < .2: s.attrs = s.attrs + [rnd.choice(['#[builder_struct_attr]', '#[builder_impl_attr]', '#[builder_impl_attr = "x"]'])]
        o.append(s)
    for b in ('#[builder_field_attr]', '#[builder_setter_attr]', '#[builder_field_attr = "x"]', '#[builder_setter_attr = "x"]'):
        o.append(S([F('a', 'u8', attrs=[b])])); o.append(S([F('b', 'u8', attrs=['#[doc = "x"]']), F('a', 'u8', attrs=[b, '#[cfg(x)]', b])]))
    for w in ('builder_field_attr', 'builder_setter_attr'):
        for c in BADC + GOODC:
            o.append(S([F('a', 'u8', attrs=['#[%s%s]' % (w, c)], try_setter=True, setter={'each': ('e', None)})]))
            o.append(S([F('a', 'u8', attrs=['#[doc = "x"]', '#[%s%s]' % (w, c), '#[%s(cold)]' % w]), F('b', 'u8', attrs=['#[%s%s]' % (w, c)] * 2)]))
    for w in ('builder_struct_attr', 'builder_impl_attr'):
        for c in BADC + GOODC:
            o.append(S([F('a', 'u8')], attrs=['#[%s%s]' % (w, c)]))
            o.append(S([F('a', 'u8')], attrs=['#[%s%s]' % (w, c), '#[%s(cold)]' % w, '#[%s%s]' % (w, c)]))
    for b in ('#[builder_struct_attr]', '#[builder_impl_attr]', '#[builder_struct_attr = "x"]', '#[builder_impl_attr = "x"]'):
        o.append(S([F('a', 'u8')], attrs=[b]))
    return o

# ------------------------------------------------------------------ inputs that meet the constants of the code
KW = set('as break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await '
         'abstract become box do final macro override priv typeof unsized virtual yield try gen'.split())
def constants(repo):
    """the words and numbers in the literals of the crate's own (non-test) source"""
    words, ints = set(), set()
    for f in sorted(glob.glob(os.path.join(repo, 'derive_builder_core', 'src', '**', '*.rs'), recursive=True)):
        t = open(f, errors='replace').read()
        t = re.split(r'#\[cfg\(test\)\]\s*mod ', t)[0]
        t = re.sub(r'(?m)^\s*//.*$|\s//\s.*$', '', t)
        t = re.sub(r'macro_rules! default_\w+ \{.*?\n\}', '', t, flags=re.S)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
            x = m.group(1)
            if ' ' in x.strip() or len(x) > 30: continue
            words |= set(re.findall(r'[A-Za-z_]\w*', x))
        for m in re.finditer(r"b?'([A-Za-z_])'", t): words.add(m.group(1) if m.group(1) != '_' else '_')
        for m in re.finditer(r'(?<![\w.\'])(\d{1,3})(?:usize|u8|u16|u32|u64|i32)?(?![\w.])', t):
            if int(m.group(1)) <= 130: ints.add(int(m.group(1)))
    return sorted(words), sorted(ints)

def harvested(repo):
    words, ints = constants(repo)
    o = []
    ident = lambda w: None if w in ('_', 'self', 'Self', 'super', 'crate') else 'r#' + w if w in KW else w
    for w in words:
        vs = [w, w + '_a', 'a_' + w] if w != '_' else ['__a', 'a__b', 'a_', '_a_']
        for n, v in enumerate(vs):
            i = ident(v)
            if i is None: continue
            plain = unraw(i)
            o.append(S([F(i, 'Option<%s<u8>>' % i, setter={'strip_option': True}, try_setter=True, default='word'), F('zz', i + '::Option<u8>', setter={'strip_option': True, 'into': True})]))
            o.append(S([F('qq', '%s<u8>' % i, setter={'name': i, 'strip_option': True}, attrs=['#[builder_field_attr(%s)]' % i, '#[builder_setter_attr(%s(a))]' % i, '#[%s]' % i], default=i + '()'),
                        F('zz', 'Vec<u8>', setter={'each': ('put_' + plain, True), 'prefix': i}), F('xx', 'Option<u8>', field_ty='%s<u8>' % i, field_build=i + '(1)')], name=i if n else 'Foo', default=None))
            o.append(S([F('qq', 'Vec<u8>', setter={'each': (i, None)}), F('zz', 'u8', v=[('vis', 'pub(in %s)' % i)], field_v=[('vis', 'pub(in crate::%s)' % i)])], setter={'prefix': plain if i != plain else i}, bname=i + 'Q', validate=i, error='%s::E' % i if n else i,
                       crate='::' + i if n else i, derive=[i], generics=[(i + ': Sized', i, 'ty')] if plain != 'T' and i == plain else [], attrs=['#[builder_struct_attr(%s)]' % i, '#[builder_impl_attr(%s = 1)]' % i]))
            o.append(S([F('qq', 'u8'), F('zz', 'u8', setter={'skip': True})], bf_name=i, create_empty='mk_' + plain, default=i + '::new()', name='Foo' if n else 'S' + plain))
            o.append(S([F('qq', 'u8'), F('zz', 'u8', setter={'skip': True}, default='word')], create_empty=i, bf_name='mk_' + plain, bname=i + 'Builder', custom_constructor=bool(n)))
    for k in ints:
        for n in {k - 1, k, k + 1}:
            if n < 4 or n > 130: continue
            nm = ('long_name_' * 14)[:n]
            if n <= 70:
                o.append(S([F('f%d' % i, 'u8') for i in range(n)]))
                o.append(S([F('f%d' % i, 'Option<u8>', setter={'into': True, 'strip_option': True}, default='word') for i in range(n)], default='word', pattern='owned'))
                o.append(S([F('f%d' % i, 'u8', setter={'skip': i % 2 == 0}, pattern='immutable' if i == n - 1 else None) for i in range(n)], pattern='owned', setter={'prefix': 'w'}))
                o.append(S([F('a', 'u8', attrs=(FATTR * 9)[:n]), F('b', 'u8')], attrs=(SATTR * 9)[:n], derive=['D%d' % i for i in range(n)], generics=[('T%d' % i, 'T%d' % i, 'ty') for i in range(n)]))
                o.append(S([F('a', '::'.join(['p'] * n) + '<u8>', default='+'.join(['1'] * n)), F('b', 'u8', field_build='; '.join(['x'] * n))], validate='::'.join(['v'] * n), error='::'.join(['e'] * n), crate='::'.join(['c'] * n)))
                o.append(S([F('a', '(%s)' % ', '.join(['u8'] * n)), F('b', 'T<%s>' % ', '.join(['u8'] * n)), F('c', 'Option<' * (n // 2) + 'u8' + '>' * (n // 2), setter={'strip_option': True})]))
            o.append(S([F(nm, 'u8', try_setter=True), F('b', 'Vec<u8>', setter={'each': ('e' + nm, True), 'name': 'n' + nm}), F('c', 'u8', setter={'prefix': 'p' + nm})]))
            o.append(S([F('a', 'u8')], name='S' + nm, bf_name='b' + nm, create_empty='c' + nm))
            o.append(S([F('a', 'u8')], bname='S' + nm))
    return o
