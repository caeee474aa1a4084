"""Which assumed contracts are discharged, and on which bodies."""
import re
from values import *
from mirparse import Unsupported, base_ty
from ex import State, add_lit, consistent
from lib import PUSH, puncts

def D(*a, **k):
    from deps import Dep
    return Dep(*a, **k)

DEPS = []
def opt(m, args, ret='?', gen='::<U, F>', **k):
    DEPS.append(D('core', r'^option::<impl at .*>::%s\(_1: .*Option<T>' % m, 'Option::<T>::%s%s' % (m, gen), [('self', 'Option<T>', 'val')] + args, ret=ret, **k))
def res(m, args, ret='?', gen='::<U, F>', **k):
    DEPS.append(D('core', r'^result::<impl at .*>::%s\(_1: .*Result<T, E>' % m, 'std::result::Result::<T, E>::%s%s' % (m, gen), [('self', 'Result<T, E>', 'val')] + args, ret=ret, **k))
F = ('f', 'F', 'val')
opt('map', [F], 'U')
opt('map_or', [('default', 'U', 'val'), F], 'U')
opt('map_or_else', [('default', 'D', 'val'), F], 'U')
opt('and_then', [F], 'Option<U>')
opt('and', [('o', 'Option<U>', 'val')], gen='::<U>')
opt('or', [('o', 'Option<T>', 'val')], gen='')
opt('or_else', [F], 'Option<T>', gen='::<F>')
opt('xor', [('o', 'Option<T>', 'val')], gen='')
opt('filter', [F], 'bool', gen='::<P>')
opt('zip', [('o', 'Option<U>', 'val')], gen='::<U>')
opt('unwrap', [], gen='')
opt('expect', [('msg', '&str', 'ref')], gen='')
opt('unwrap_or', [('d', 'T', 'val')], gen='')
opt('unwrap_or_else', [F], 'T', gen='::<F>')
opt('ok_or', [('e', 'E', 'val')], gen='::<E>')
opt('ok_or_else', [F], 'E', gen='::<E, F>')
opt('is_some_and', [F], 'bool', gen='::<F>')
opt('is_none_or', [F], 'bool', gen='::<F>')
for m in ('is_some', 'is_none', 'as_ref'):
    DEPS.append(D('core', r'^option::<impl at .*>::%s\(_1: .*Option<T>' % m, 'Option::<T>::%s' % m, [('self', 'Option<T>', 'ref')]))
for m, a in (('take', []), ('replace', [('v', 'T', 'val')])):
    DEPS.append(D('core', r'^option::<impl at .*>::%s\(_1: .*Option<T>' % m, 'Option::<T>::%s' % m, [('self', 'Option<T>', 'mut')] + a))
DEPS.append(D('core', r'^option::<impl at .*>::flatten\(', 'Option::<Option<T>>::flatten', [('self', 'Option<Option<T>>', 'val')]))
DEPS.append(D('core', r'^option::<impl at .*>::default\(\)', '<Option<T> as Default>::default', []))
DEPS.append(D('core', r'^option::<impl at .*>::from_output\(', '<Option<T> as Try>::from_output', [('o', 'T', 'val')]))
DEPS.append(D('core', r'^option::<impl at .*>::branch\(', '<Option<T> as Try>::branch', [('self', 'Option<T>', 'val')], covers='<Try>::branch'))
DEPS.append(D('core', r'^result::<impl at .*>::branch\(', '<Result<T, E> as Try>::branch', [('self', 'Result<T, E>', 'val')], covers='<Try>::branch'))
DEPS.append(D('core', r'^result::<impl at .*>::from_output\(', '<Result<T, E> as Try>::from_output', [('o', 'T', 'val')]))
res('map', [F], 'U')
res('map_err', [F], 'U')
res('map_or', [('default', 'U', 'val'), F], 'U')
res('map_or_else', [('default', 'D', 'val'), F], 'U')
res('and_then', [F], 'Result<U, E>')
res('ok', [], gen='')
res('err', [], gen='')
res('unwrap', [], gen='')
res('expect', [('msg', '&str', 'ref')], gen='')
res('unwrap_or', [('d', 'T', 'val')], gen='')
res('unwrap_or_else', [F], 'T', gen='::<F>')
for m in ('is_ok', 'is_err', 'as_ref'):
    DEPS.append(D('core', r'^result::<impl at .*>::%s\(_1: .*Result<T, E>' % m, 'std::result::Result::<T, E>::%s' % m, [('self', 'Result<T, E>', 'ref')]))

# ---- quote
for n in sorted(PUSH):
    DEPS.append(D('quote', r'^push_%s\(' % n, 'quote::__private::push_%s' % n, [('tokens', 'TokenStream', 'toks')]))
    DEPS.append(D('quote', r'^push_%s_spanned\(' % n, 'quote::__private::push_%s_spanned' % n, [('tokens', 'TokenStream', 'toks'), ('span', 'Span', 'val')]))

def tick(ex, st, c, v, body):
    """an apostrophe joined to an identifier is a lifetime"""
    if not isinstance(v, Toks): return v
    out = []
    for x in v.items:
        if out and out[-1] == ('p', "'", 'joint') and x[0] == 'i': out[-1] = ('lt', "'" + x[1])
        else: out.append(x)
    return Toks(tuple(out))
for l in ("'static", "'a", "'_"):
    DEPS.append(D('quote', r'^push_lifetime\(', 'quote::__private::push_lifetime', [('tokens', 'TokenStream', 'toks'), ('lifetime', '&str', Str((l,)))], same=tick, hooks=dict(index=lambda *a: tail(*a))))
    DEPS.append(D('quote', r'^push_lifetime_spanned\(', 'quote::__private::push_lifetime_spanned', [('tokens', 'TokenStream', 'toks'), ('span', 'Span', 'val'), ('lifetime', '&str', Str((l,)))], same=tick, hooks=dict(index=lambda *a: tail(*a))))

# identifiers: `r#` is spelling, not part of the name
def new_raw(L, ex, st, ci, v):
    s = L.to_str(ex, st, v[0])
    p = s.parts[0]
    if isinstance(p, tuple) and p[0] == 'unraw': return Adt('Ident', None, (Str((('display', p[1]),) + s.parts[1:]),))
    if isinstance(p, tuple) and p[0] == 'strfn' and p[1] == 'strip_prefix' and p[3] == 'r#': return Adt('Ident', None, (p[2],))
    return Adt('Ident', None, (Str((('r#' + p) if isinstance(p, str) else 'r#', ) + (s.parts[1:] if isinstance(p, str) else s.parts)),))
def tail(L, ex, st, ci, v):
    """&s[n..]"""
    s = L.to_str(ex, st, v[0]); n = v[1].fs[0]
    p = s.parts[0]
    if isinstance(p, str) and len(p) >= n: return Str(tuple(x for x in (p[n:],) + s.parts[1:] if x != ''))
    if n == 2 and isinstance(p, tuple) and p[0] == 'display' and st.pc.get(('raw', p[1])) == ('=', True): return Str((('unraw', p[1]),) + s.parts[1:])
    raise Unsupported('slice of %s' % show(s))
IDENT = dict(new_raw=new_raw, index=tail)
def spelled(ex, st, c, v, body):
    """under the path condition an identifier that is not raw is spelled like its name"""
    if isinstance(v, Cases):
        def under(g):
            pc = dict(st.pc)
            for l in g: add_lit(ex.ctx, pc, l)
            return State(st.heap, pc)
        return Cases(tuple((g, spelled(ex, under(g), c, x, body)) for g, x in v.cs))
    def f(x):
        if isinstance(x, Str): return Str(tuple(('display', p[1]) if isinstance(p, tuple) and p[0] == 'unraw' and consistent(ex.ctx, st.pc, ((('raw', p[1]), '=', False),)) and not consistent(ex.ctx, st.pc, ((('raw', p[1]), '=', True),)) else p for p in x.parts))
        if isinstance(x, Adt): return Adt(x.n, x.v, tuple(f(y) for y in x.fs))
        return x
    return f(v)
ID = ('display', ('v', 'id'))
STRS = [Str((('str', ('v', 'x')),)), Str((ID,)), Str(('try_', ID)), Str((ID, 'Builder')), Str(('foo',)), Str(('r#type',)), Str(('',)), Str(('two words',))]
for s in STRS[:1] + STRS[4:6]:
    DEPS.append(D('quote', r'^push_ident\(', 'quote::__private::push_ident', [('tokens', 'TokenStream', 'toks'), ('s', '&str', s)], hooks=IDENT, same=spelled))
    DEPS.append(D('quote', r'^push_ident_spanned\(', 'quote::__private::push_ident_spanned', [('tokens', 'TokenStream', 'toks'), ('span', 'Span', 'val'), ('s', '&str', s)], hooks=IDENT, same=spelled))
for s in STRS: DEPS.append(D('quote', r'^mk_ident\(', 'quote::__private::mk_ident', [('id', '&str', s), ('span', 'Option<Span>', 'val')], hooks=IDENT, same=spelled))
DEPS.append(D('quote', r'^push_underscore\(', 'quote::__private::push_underscore', [('tokens', 'TokenStream', 'toks')]))
DEPS.append(D('quote', r'^push_underscore_spanned\(', 'quote::__private::push_underscore_spanned', [('tokens', 'TokenStream', 'toks'), ('span', 'Span', 'val')]))
for d in ('Parenthesis', 'Brace', 'Bracket', 'None'):
    g = [('d', 'Delimiter', Adt('Delimiter', d, ())), ('inner', 'TokenStream', 'val')]
    DEPS.append(D('quote', r'^push_group\(', 'quote::__private::push_group', [('tokens', 'TokenStream', 'toks')] + g))
    DEPS.append(D('quote', r'^push_group_spanned\(', 'quote::__private::push_group_spanned', [('tokens', 'TokenStream', 'toks'), ('span', 'Span', 'val')] + g))
for t in ('Ident', 'Punct', 'Group', 'Literal', 'TokenTree'):
    DEPS.append(D('quote', r'ext::<impl at .*>::append\(', '<TokenStream as TokenStreamExt>::append::<%s>' % t, [('tokens', 'TokenStream', 'toks'), ('t', t, 'val')]))
DEPS.append(D('quote', r'ext::<impl at .*>::append_all\(', '<TokenStream as TokenStreamExt>::append_all::<Vec<T>>', [('tokens', 'TokenStream', 'toks'), ('ts', 'Vec<T>', 'val')]))
DEPS.append(D('quote', r'ext::<impl at .*>::append_terminated\(', '<TokenStream as TokenStreamExt>::append_terminated::<Vec<T>, U>', [('tokens', 'TokenStream', 'toks'), ('ts', 'Vec<T>', 'val'), ('u', 'U', 'val')]))
DEPS.append(D('quote', r'ToTokens::to_token_stream\(', '<T as ToTokens>::to_token_stream', [('self', 'T', 'ref')]))
DEPS.append(D('quote', r'ToTokens::into_token_stream\(_1: Self', '<T as ToTokens>::into_token_stream', [('self', 'T', 'val')]))
def tt(pat, ty, **k): DEPS.append(D('quote', r'to_tokens::<impl at .*>::to_tokens\(_1: &%s, ' % pat, '<%s as ToTokens>::to_tokens' % ty, [('self', ty, 'ref'), ('tokens', 'TokenStream', 'toks')], **k))
tt('&T', '&T'); tt('&mut T', '&mut T'); tt('Cow<.*>', 'Cow<T>'); tt('Box<T>', 'Box<T>'); tt('Option<T>', 'Option<T>')
tt('proc_macro2::TokenStream', 'TokenStream'); tt('proc_macro2::Ident', 'Ident'); tt('proc_macro2::Group', 'Group'); tt('proc_macro2::TokenTree', 'TokenTree'); tt('str', 'str'); tt('std::string::String', 'String')
for b in (True, False): DEPS.append(D('quote', r'to_tokens::<impl at .*>::to_tokens\(_1: &bool, ', '<bool as ToTokens>::to_tokens', [('self', 'bool', b), ('tokens', 'TokenStream', 'toks')]))

# ---- darling_core: an accumulator is its list of errors (Accumulator(Some(errors)); None once it is used up)
def pop(L, ex, st, ci, v):
    """the last element of a list that has exactly one"""
    q = L.deref(ex, st, v[0])
    return SOME(Sym(('single', Seq(tuple(L.segs(ex, st, q)))), 'Error'))
def single(ex, st, c, v, body):
    """a list of one error stands for that error"""
    def f(x):
        if isinstance(x, Adt) and x.n == 'DarlingError' and x.v == 'multiple' and st.pc.get(('int', ('len', ('v', 'self')))) == ('=', 1): return Sym(('single', x.fs[0]), 'Error')
        return Adt(x.n, x.v, tuple(f(y) for y in x.fs)) if isinstance(x, Adt) else x
    return f(v)
POP = dict(pop=pop)
A = r'error::<impl at .*>::'
ERR = ('e', 'Error', 'val')
DEPS.append(D('darling_core', A + r'default\(\) -> (error::)?Accumulator', 'Accumulator::default', []))
DEPS.append(D('darling_core', A + r'accumulator\(', 'darling::Error::accumulator', []))
DEPS.append(D('darling_core', A + r'push\(_1: &mut Accumulator', 'Accumulator::push', [('self', 'Accumulator', 'acc'), ERR]))
DEPS.append(D('darling_core', A + r'handle\(_1: &mut Accumulator', 'Accumulator::handle::<T>', [('self', 'Accumulator', 'acc'), ('r', 'Result<T, Error>', 'val')]))
DEPS.append(D('darling_core', A + r'finish\(_1: Accumulator', 'Accumulator::finish', [('self', 'Accumulator', 'accv')], hooks=POP, same=single))
DEPS.append(D('darling_core', A + r'finish_with\(_1: Accumulator', 'Accumulator::finish_with::<T>', [('self', 'Accumulator', 'accv'), ('t', 'T', 'val')], hooks=POP, same=single))

# an error is its kind; where it happened is erased
def bare(ex, st, c, v, body): return Adt(v.n, {'unexpected_format': 'unsupported_format'}.get(v.v, v.v), ()) if isinstance(v, Adt) and v.n == 'DarlingError' else v
def whole(st): return Adt('Error', None, (Sym(('v', 'kind'), 'ErrorKind'), Sym(('v', 'locations'), 'Vec<String>'), Sym(('v', 'span'), 'Option<Span>')))
def same_kind(ex, st, c, v, body):
    return v.fs[0] if isinstance(v, Adt) and v.n == 'Error' and v.v is None else v
for m, a in (('custom', ('msg', 'T', 'val')), ('duplicate_field', ('name', '&str', 'ref')), ('missing_field', ('name', '&str', 'ref')), ('unsupported_format', ('format', '&str', 'ref')),
             ('unknown_value', ('value', '&str', 'ref')), ('too_few_items', ('min', 'usize', 'val')), ('too_many_items', ('max', 'usize', 'val')), ('unknown_field', ('name', '&str', 'ref'))):
    DEPS.append(D('darling_core', A + m + r'\(', 'darling::Error::%s' % m, [a], same=bare, hooks=dict(into=lambda L, ex, st, ci, v: L.to_str(ex, st, v[0]))))
for m, a in (('with_span', ('node', 'T', 'ref')), ('at', ('location', 'T', 'val'))):
    DEPS.append(D('darling_core', A + m + r'\(', 'darling::Error::%s' % m, [('self', 'Error', whole), a], same=same_kind, hooks=dict(insert=lambda L, ex, st, ci, v: UNIT)))
DEPS.append(D('darling_core', A + r'multiple\(', 'darling::Error::multiple', [('es', 'Vec<Error>', lambda st: Seq((('e', Sym(('v', 'e'), 'Error')),)))], hooks=dict(pop=lambda L, ex, st, ci, v: SOME(L.segs(ex, st, L.deref(ex, st, v[0]))[-1][1]))))
DEPS.append(D('darling_core', A + r'multiple\(', 'darling::Error::multiple', [('es', 'Vec<Error>', lambda st: Seq((('e', Sym(('v', 'e1'), 'Error')), ('e', Sym(('v', 'e2'), 'Error')), ('all', ('v', 'more'), 'Error'))))], pre=lambda st: st.pc.update({('int', ('len', Seq((('e', Sym(('v', 'e1'), 'Error')), ('e', Sym(('v', 'e2'), 'Error')), ('all', ('v', 'more'), 'Error'))))): ('!=', frozenset((0, 1)))})))

# a flag is present exactly when it carries a span
FL = r'flag::<impl at .*>::'
def ret(f): return f
for p in (True, False):
    def flag(st, p=p): return Ref(('ext', ('v', 'flag'), Adt('Flag', None, (SOME(Sym(('v', 's'), 'Span')) if p else NONE(),))), ())
    DEPS.append(D('darling_core', FL + r'is_present\(', 'Flag::is_present', [('self', 'Flag', flag)], spec=ret(lambda L, ex, st, a, p=p: p), covers='Flag::is_present'))
DEPS.append(D('darling_core', FL + r'from_none\(', '<Flag as FromMeta>::from_none', [], spec=ret(lambda L, ex, st, a: SOME(Adt('Flag', None, (NONE(),))))))
DEPS.append(D('darling_core', FL + r'default\(', '<Flag as Default>::default', [], spec=ret(lambda L, ex, st, a: Adt('Flag', None, (NONE(),)))))
DEPS.append(D('darling_core', r'path_list::<impl at .*>::deref\(', '<PathList as Deref>::deref', [('self', 'PathList', lambda st: Ref(('ext', ('v', 'l'), Adt('PathList', None, (Seq((('all', ('v', 'ps'), 'Path'),)),))), ()))],
              spec=ret(lambda L, ex, st, a: Seq((('all', ('v', 'ps'), 'Path'),))), covers='PathList::deref'))
DEPS.append(D('darling_core', r'path_list::<impl at .*>::default\(', '<PathList as Default>::default', []))
DEPS.append(D('darling_core', r'spanned_value::<impl at .*>::deref\(', '<SpannedValue<T> as Deref>::deref', [('self', 'SpannedValue<T>', 'ref')]))

# ---- quote: text of an identifier's fragments, repetitions
def has(n): return lambda st: Adt(n, None, ())
for a in ('HasIterator', 'ThereIsNoIteratorInRepetition'):
    for b in ('HasIterator', 'ThereIsNoIteratorInRepetition'):
        DEPS.append(D('quote', r'bitor\(_1: %s, _2: %s\)' % (a, b), '<%s as BitOr<%s>>::bitor' % (a, b), [('a', a, has(a)), ('b', b, has(b))], covers='<BitOr>::bitor'))
DEPS.append(D('quote', r'RepToTokensExt::quote_into_iter\(', '<T as RepToTokensExt>::quote_into_iter', [('self', 'T', 'ref')]))
DEPS.append(D('quote', r'RepToTokensExt::next\(', '<T as RepToTokensExt>::next', [('self', 'T', 'ref')]))
for t in (r'&Vec<T>', r'&\[T\]'): DEPS.append(D('quote', r'quote_into_iter\(_1: %s\)' % t, '<Vec<T> as RepAsIteratorExt>::quote_into_iter', [('self', 'Vec<T>', 'ref')]))
def show_in(L, ex, st, ci, v):
    r = L.lastref(ex, st, v[1])
    L.set(ex, st, r, Str(L.get(ex, st, r).parts + L.display(ex, st, L.deref(ex, st, v[0])).parts)); return OK(UNIT)
def frag(L, ex, st, a):
    r = L.lastref(ex, st, a[1]); L.set(ex, st, r, L.display(ex, st, Adt('IdentFragmentAdapter', None, (L.deref(ex, st, a[0]),))))
    return OK(UNIT)
for t, ty in (('proc_macro2::Ident', 'Ident'), ('str', 'str'), (r'std::string::String', 'String')):
    DEPS.append(D('quote', r'ident_fragment::<impl at .*>::fmt\(_1: &%s, ' % t, '<%s as IdentFragment>::fmt' % ty, [('self', ty, 'ref'), ('f', 'Formatter', 'fmt')], spec=frag, hooks=dict(fmt=show_in, index=lambda L, ex, st, ci, v: v[0]), same=spelled))

# ---- syn: generics, punctuated lists (pairs of an element and its separator, and an element without one)
DEPS.append(D('syn', r'split_for_impl\(', 'Generics::split_for_impl', [('self', 'Generics', 'ref')]))
PI = ('v', 'inner')
def pun(last, spec):
    el = ('elem', PI)
    if spec: return Seq((('map', PI, (((), (('e', Sym(('f', el, 0), 'T')),)),)),) + ((('e', Sym(('v', 'last'), 'T')),) if last else ()))
    return Adt('Punctuated', None, (Seq((('all', PI, '(T, P)'),)), SOME(Adt('Box', None, (Sym(('v', 'last'), 'T'),))) if last else NONE()))
P_ = r'punctuated::<impl at .*>::'
for last in (True, False):
    for m, a in (('is_empty', []),):
        DEPS.append(D('syn', P_ + m + r'\(_1: &Punctuated<T, P>', 'Punctuated::<T, P>::%s' % m, [('self', 'Punctuated<T, P>', (lambda last, i: lambda st, spec=False: Ref(('ext', ('v', 'self'), pun(last, spec)), ()))(last, m))] + a))

# ---- more of core: a type parameter's default is opaque, an error keeps its identity in From
DFLT = Sym(('default', 'T'), 'T')
def or_default(L, ex, st, a):
    from lib import opt as o
    k, x = o(ex, st, a[0]); return x if k in ('Some', 'Ok') else DFLT
opt('unwrap_or_default', [], gen='', hooks=dict(default=lambda *a: DFLT), spec=or_default, covers='Option::unwrap_or_default')
res('unwrap_or_default', [], gen='', hooks=dict(default=lambda *a: DFLT), spec=or_default)
DEPS.append(D('core', r'^option::<impl at .*>::from_residual\(_1: Option<Infallible>', '<Option<T> as FromResidual<Option<Infallible>>>::from_residual', [('r', 'Option<Infallible>', NONE())], covers='<FromResidual>::from_residual'))
DEPS.append(D('core', r'^result::<impl at .*>::from_residual\(_1: .*Result<Infallible, E>', '<Result<T, E> as FromResidual<Result<Infallible, E>>>::from_residual', [('r', 'Result<Infallible, E>', Adt('Result', 'Err', (Sym(('v', 'e'), 'E'),)))], hooks=dict([('from', lambda L, ex, st, ci, v: v[0])]), covers='<FromResidual>::from_residual'))
DEPS.append(D('core', r'^option::<impl at .*>::clone\(_1: &Option<T>', '<Option<T> as Clone>::clone', [('self', 'Option<T>', 'ref')]))
DEPS.append(D('core', r'^option::<impl at .*>::as_deref\(', 'Option::<T>::as_deref', [('self', 'Option<T>', 'ref')]))
DEPS.append(D('core', r'^option::<impl at .*>::cloned\(_1: Option<&T>', 'Option::<&T>::cloned', [('self', 'Option<&T>', 'val')]))
opt('inspect', [F], gen='::<F>')
DEPS.append(D('core', r'^option::<impl at .*>::get_or_insert_with\(', 'Option::<T>::get_or_insert_with::<F>', [('self', 'Option<T>', 'mut'), F], ret='T'))

# ---- darling_core: shapes; syn: pairs
def units(ex, st, c, v, body):
    """a field of type () is equal to itself"""
    if isinstance(v, Adt) and v.n == 'Data' and isinstance(v.fs[0], Adt) and v.fs[0].n == 'Fields':
        return Adt('Data', v.v, (Adt('Fields', None, v.fs[0].fs[:3] + (Sym(('f', ('f', ('v', 'self'), 'Struct.0'), '__nonexhaustive'), '()'),)),))
    return v
DEPS.append(D('darling_core', r'data::<impl at .*>::as_ref\(_1: &(\w+::)*Data<V, F>', 'Data::<V, F>::as_ref', [('self', 'Data<V, F>', 'ref')], same=units))
DEPS.append(D('darling_core', r'data::<impl at .*>::take_struct\(', 'Data::<V, F>::take_struct', [('self', 'Data<V, F>', 'val')]))
for w in (('Punctuated', (Sym(('v', 't'), 'T'), Sym(('v', 'p'), 'P'))), ('End', (Sym(('v', 't'), 'T'),))):
    DEPS.append(D('syn', P_ + r'into_value\(', 'Pair::<T, P>::into_value', [('self', 'Pair<T, P>', Adt('Pair', *w))]))
