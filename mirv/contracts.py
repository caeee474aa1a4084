"""The contracts: what each function of derive_builder_core owes, over all its inputs.
Labels name the properties of properties.jsonl that a difference breaks."""
from spec import *
from verify import Contract
from lib import parsed, lex, lit, catstr, wc

PUB = Adt('Visibility', 'Public', (UNIT,))
PRIV = Adt('Visibility', 'Inherited', ())
CALL = 'C18'

def path(S, root, rest): return S.T(CALL, '$r :: ' + rest, r=S.toks(root))

# ------------------------------------------------------------ option precedence (fields with defaults)
def sflag(S, v): return S.truth(Sym(('present', S.deref(v).t), 'bool')) if isinstance(S.deref(v), Sym) else S.truth(v)

def skipopt(S, fwd):
    """Some(enabled) stated by skip or by any other setter option of the field"""
    fs = S.get(fwd, 'field.setter')
    sk = S.opt(S.get(fs, 'skip'))
    if sk is not None: return not S.truth(sk)
    for n in ('prefix', 'name', 'into', 'strip_option', 'each'):
        if S.opt(S.get(fs, n)) is not None: return True
    c = S.opt(S.get(fs, 'custom'))
    if c is not None and not S.truth(c): return True
    return None
def struct_enabled(S, fwd):
    sk = S.opt(S.get(fwd, 'parent.setter.skip'))
    return True if sk is None else not S.truth(sk)
def field_enabled(S, fwd):
    e = skipopt(S, fwd)
    return struct_enabled(S, fwd) if e is None else e
def setter_enabled(S, fwd):
    c = S.opt(S.get(fwd, 'field.setter.custom'))
    if c is not None and S.truth(c): return False
    return field_enabled(S, fwd)
def present(S, flag): return S.truth(S.L.call(S.ex, S.st, dict(ty='Flag', trait=None, m='is_present', gen='', raw='Flag::is_present', kind='path', dty='bool'), [flag])[0][2])
def try_setter(S, fwd): return present(S, S.get(fwd, 'field.try_setter')) or present(S, S.get(fwd, 'parent.try_setter'))
def explicit_vis(S, va):
    k = S.variant(va)
    if k == 'Public': return PUB
    if k == 'Private': return PRIV
    if k == 'Explicit': return S.payload(va, 'Explicit')
    return None
def setter_vis(S, fwd):
    v = explicit_vis(S, S.get(fwd, 'field.visibility'))
    if v is None: v = explicit_vis(S, S.get(fwd, 'parent.visibility'))
    return PUB if v is None else v
def pattern(S, fwd):
    p = S.opt(S.get(fwd, 'field.pattern'))
    return S.get(fwd, 'parent.pattern') if p is None else p
def ident(S, fwd):
    i = S.opt(S.get(fwd, 'field.ident'))
    if i is None: raise Panic('unnamed field')
    return i
def setter_ident(S, fwd):
    n = S.opt(S.get(fwd, 'field.setter.name'))
    if n is not None: return n
    p = S.opt(S.get(fwd, 'field.setter.prefix'))
    if p is None: p = S.opt(S.get(fwd, 'parent.setter.prefix'))
    i = ident(S, fwd)
    if p is None: return i
    return S.L.mk_ident_from(S.ex, S.st, catstr(fragment(S, p), lit('_'), fragment(S, i)), True)
def fragment(S, i):
    """the text of an identifier, without r#"""
    return S.display(Adt('IdentFragmentAdapter', None, (S.deref(i),)))
def field_type(S, fwd):
    ty = S.get(fwd, 'field.ty')
    if not field_enabled(S, fwd): return Adt('BuilderFieldType', 'Phantom', (ty,))
    c = S.opt(S.get(fwd, 'field.field.builder_type'))
    if c is not None: return Adt('BuilderFieldType', 'Precise', (c,))
    return Adt('BuilderFieldType', 'Optional', (ty,))
def boolopt(S, fwd, name):
    v = S.opt(S.get(fwd, 'field.setter.' + name))
    if v is None: v = S.opt(S.get(fwd, 'parent.setter.' + name))
    return False if v is None else S.truth(v)
def field_vis(S, fwd):
    v = explicit_vis(S, S.get(fwd, 'field.field.visibility'))
    if v is not None: return v
    if not field_enabled(S, fwd): return PRIV
    v = explicit_vis(S, S.get(fwd, 'parent.field'))
    return PRIV if v is None else v
def conversion(S, fwd):
    b = S.opt(S.get(fwd, 'field.field.build'))
    if b is not None: return Adt('FieldConversion', 'Block', (b,))
    if S.opt(S.get(fwd, 'field.field.builder_type')) is not None: return Adt('FieldConversion', 'Move', ())
    return Adt('FieldConversion', 'OptionOrDefault', ())

def as_setter(S, fwd):
    return dict(
        crate_root=('C18', lambda S: S.get(fwd, 'parent.crate_root')),
        setter_enabled=('C06 C11', lambda S: setter_enabled(S, fwd)),
        try_setter=('C07 C11', lambda S: try_setter(S, fwd)),
        visibility=('C12 C11', lambda S: setter_vis(S, fwd)),
        pattern=('C01 C11', lambda S: pattern(S, fwd)),
        attrs=('C13', lambda S: S.get(fwd, 'field.attrs.setter')),
        ident=('C10 C11', lambda S: setter_ident(S, fwd)),
        field_ident=('C01 C21', lambda S: ident(S, fwd)),
        field_type=('C06 C20 C01', lambda S: field_type(S, fwd)),
        generic_into=('C09 C11', lambda S: boolopt(S, fwd, 'into')),
        strip_option=('C09 C11', lambda S: boolopt(S, fwd, 'strip_option')),
        each=('C08', lambda S: S.get(fwd, 'field.setter.each')))
def named(S, fwd): return S.opt(S.get(fwd, 'field.ident')) is not None

def as_initializer(S, fwd):
    def span(S):
        e = S.opt(S.get(fwd, 'parent.build_fn.error'))
        if e is not None and S.variant(e) == 'Existing': return SOME(Adt('Span', None, ()))
        return NONE()
    return dict(
        crate_root=('C18', lambda S: S.get(fwd, 'parent.crate_root')),
        field_ident=('C21 C03', lambda S: ident(S, fwd)),
        field_enabled=('C02 C06 C11', lambda S: field_enabled(S, fwd)),
        builder_pattern=('C02', lambda S: S.get(fwd, 'parent.pattern')),
        default_value=('C04 C06', lambda S: S.get(fwd, 'field.default')),
        use_default_struct=('C04 C06 C03', lambda S: S.opt(S.get(fwd, 'field.default')) is None and S.opt(S.get(fwd, 'parent.default')) is not None),
        custom_error_type_span=('', span),
        conversion=('C20 C02', lambda S: conversion(S, fwd)))

def as_builder_field(S, fwd):
    return dict(
        crate_root=('C18', lambda S: S.get(fwd, 'parent.crate_root')),
        field_ident=('C10 C21', lambda S: ident(S, fwd)),
        field_type=('C06 C20 C01', lambda S: field_type(S, fwd)),
        field_visibility=('C12 C06 C11', lambda S: field_vis(S, fwd)),
        attrs=('C13', lambda S: S.get(fwd, 'field.attrs.field')))

# ------------------------------------------------------------ setters
def extract(S, ty): return S.use('extract_type_from_option', ty)
def extract_spec(S, ty):
    """the parameter of a type written Option<T>, std::option::Option<T> or core::option::Option<T>"""
    ty = S.deref(ty)
    if S.variant(ty) != 'Path': return NONE()
    tp = S.payload(ty, 'Path')
    if S.opt(S.get(tp, 'qself')) is not None: return NONE()
    segs = S.get(tp, 'path.segments')
    # the segment names, each followed by a separator no identifier contains
    text = Str((('smap', segs.t, (((), (('display', ('f', ('elem', segs.t), 'ident')), '|')),)),))
    for p in ('Option', 'std::option::Option', 'core::option::Option'):
        n = p.split('::')
        if S.truth(S.L.str_eq(S.ex, S.st, text, lit(''.join(x + '|' for x in n)))):
            last = S.L.call(S.ex, S.st, dict(ty='Punctuated', trait=None, m='last', gen='', raw='', kind='path', dty=None), [segs])[0][2]
            last = S.opt(last)
            if last is None: return NONE()
            args = S.get(last, 'arguments')
            if S.variant(args) != 'AngleBracketed': return NONE()
            inner = S.get(S.payload(args, 'AngleBracketed'), 'args')
            first = S.opt(S.L.call(S.ex, S.st, dict(ty='Punctuated', trait=None, m='first', gen='', raw='', kind='path', dty=None), [inner])[0][2])
            if first is None or S.variant(first) != 'Type': return NONE()
            return SOME(S.payload(first, 'Type'))
    return NONE()

def some(S, root, e): return S.T('C01 C09', '$p ( $e )', p=path(S, root, 'export::core::option::Option::Some'), e=e)

def setter_tokens(S, me):
    g = lambda n: S.get(me, n)
    if not S.truth(g('setter_enabled')): return LT()
    root = g('crate_root')
    k = S.variant(g('field_type'))
    if k == 'Phantom': raise Panic('phantom fields have no setter')
    fty = S.payload(g('field_type'), k)
    p = S.variant(g('pattern'))
    selfp = S.T('C01 C11', {'Owned': 'self', 'Mutable': '&mut self', 'Immutable': '&self'}[p])
    ret = S.T('C01 C11', '&mut Self' if p == 'Mutable' else 'Self')
    new = S.T('C01', 'self') if p != 'Immutable' else S.T('C01', '$p (self)', p=path(S, root, 'export::core::clone::Clone::clone'))
    inner = S.opt(extract(S, fty)) if S.truth(g('strip_option')) else None
    ty = lab('C09 C20 C01', S.toks(fty if inner is None else inner))
    into = S.truth(g('generic_into'))
    val = S.T('C09 C01', 'value.into()' if into else 'value')
    if inner is not None: val = some(S, root, val)
    if k == 'Optional': val = some(S, root, val)
    gen = S.T('C09', '<VALUE: $p<$ty>>', p=path(S, root, 'export::core::convert::Into'), ty=ty) if into else LT()
    pty = S.T('C09', 'VALUE') if into else ty
    attrs = lab('C13', S.flat(g('attrs')))
    vis = lab('C12', S.toks(g('visibility')))
    fid = lab('C01 C10', S.toks(g('field_ident')))
    name = lab('C10', S.toks(g('ident')))
    out = S.T('C01', '''$attrs $allow $vis fn $name $gen ($selfp, $arg) -> $ret { let mut new = $new; new.$fid = $val; new }''',
              attrs=attrs, allow=S.T('', '#[allow(unused_mut)]'), vis=vis, name=name, gen=gen, selfp=selfp, ret=ret, new=new, fid=fid, val=val,
              arg=S.T('C09', 'value: $pty', pty=pty))
    if S.truth(g('try_setter')):
        conv = S.T('C07', 'converted')
        def wrap(e): return S.T('C07', '$p ( $e )', p=path(S, root, 'export::core::option::Option::Some'), e=e)
        if inner is not None: conv = wrap(conv)
        if k == 'Optional': conv = wrap(conv)
        tname = S.L.mk_ident_from(S.ex, S.st, catstr(lit('try_'), fragment(S, g('ident'))), True)
        out = out + S.T('C07', '''$attrs $vis fn $name <VALUE: $tryinto<$ty>> ($selfp, value: VALUE) -> $result<$ret, VALUE::Error> {
                let converted : $ty = value.try_into()?; let mut new = $new; new.$fid = $conv; Ok(new) }''',
              attrs=relab(attrs, 'C13 C07'), vis=relab(vis, 'C12 C07'), name=lab('C07 C10', S.toks(tname)), tryinto=path(S, root, 'export::core::convert::TryInto'), ty=relab(ty, 'C07 C09 C20'),
              selfp=relab(selfp, 'C07 C11'), result=path(S, root, 'export::core::result::Result'), ret=relab(ret, 'C07 C11'), new=addlab(new, 'C07'),
              fid=relab(fid, 'C07'), conv=conv)
    each = S.opt(g('each'))
    if each is not None:
        each = S.deref(each)
        dflt = path(S, root, 'export::core::default::Default::default')
        if inner is not None:
            coll = S.T('C08', 'get_or_insert_with(|| Some($d())).get_or_insert_with($d)', d=dflt)
        else: coll = S.T('C08', 'get_or_insert_with($d)', d=dflt)
        einto = S.truth(S.get(each, 'into'))
        if einto:
            egen = S.T('C08', '<VALUE, FROM_VALUE: $p<VALUE>>', p=path(S, root, 'export::core::convert::Into'))
            ety = S.T('C08', 'FROM_VALUE')
            item = S.T('C08', '$p(item)', p=path(S, root, 'export::core::convert::Into::into'))
        else:
            egen, ety, item = S.T('C08', '<VALUE>'), S.T('C08', 'VALUE'), S.T('C08', 'item')
        out = out + S.T('C08', '''$attrs $allow $vis fn $name $gen($selfp, item: $ety) -> $ret where $ty: $default + $extend<VALUE>, {
                let mut new = $new; new.$fid.$coll.extend($some($item)); new }''',
              attrs=relab(attrs, 'C13 C08'), allow=S.T('', '#[allow(unused_mut)]'), vis=relab(vis, 'C12 C08'), name=lab('C08 C10', S.toks(S.get(each, 'name'))), gen=egen, selfp=relab(selfp, 'C08 C11'), ety=ety,
              ret=relab(ret, 'C08 C11'), ty=relab(ty, 'C08'), default=path(S, root, 'export::core::default::Default'), extend=path(S, root, 'export::core::iter::Extend'),
              new=addlab(new, 'C08'), fid=relab(fid, 'C08'), coll=coll, some=path(S, root, 'export::core::option::Option::Some'), item=item)
    return out
def relab(t, l):
    l = labels(l)
    return LT([(l, ('G', it[1], relab(it[2], l)) if it[0] == 'G' else it) for _, it in t.xs])
def addlab(t, l):
    """replace C01 by another property in the same shape"""
    l = labels(l)
    return LT([(l if 'C01' in x else x, ('G', it[1], addlab(it[2], l)) if it[0] == 'G' else it) for x, it in t.xs])
def setter_req(S, me):
    return not S.truth(S.get(me, 'setter_enabled')) or S.variant(S.get(me, 'field_type')) != 'Phantom'

# ------------------------------------------------------------ builder fields
def with_root(S, ft, root):
    k = S.variant(ft)
    ty = S.toks(S.payload(ft, k))
    if k == 'Optional': return S.T('C01', '$p<$t>', p=path(S, root, 'export::core::option::Option'), t=ty)
    if k == 'Precise': return lab('C20', ty)
    return S.T('C06', '$p<$t>', p=path(S, root, 'export::core::marker::PhantomData'), t=ty)
def builder_field_tokens(S, me):
    g = lambda n: S.get(me, n)
    return S.T('C21', '$a $v $i : $t ,', a=lab('C13', S.flat(g('attrs'))), v=lab('C12', S.toks(g('field_visibility'))), i=lab('C10 C21', S.toks(g('field_ident'))), t=with_root(S, g('field_type'), g('crate_root')))
def default_init(S, me):
    return S.T('C16', '$i : $d () ,', i=lab('C16 C21', S.toks(S.get(me, 'field_ident'))), d=path(S, S.get(me, 'crate_root'), 'export::core::default::Default::default'))
def default_init_spec(S, me): return Toks(default_init(S, me).plain())

# ------------------------------------------------------------ initializers
def default_expr(S, e, root, l):
    if S.variant(e) == 'Trait': return S.T(l, '$d ()', d=path(S, root, 'export::core::default::Default::default'))
    return lab(l + ' C22', S.toks(S.get(S.payload(e, 'Explicit'), '0')))
def initializer_tokens(S, me):
    g = lambda n: S.get(me, n)
    root, fid = g('crate_root'), g('field_ident')
    i = S.toks(fid)
    dv = S.opt(g('default_value'))
    if not S.truth(g('field_enabled')):
        if dv is not None: rhs = default_expr(S, dv, root, 'C06')
        elif S.truth(g('use_default_struct')): rhs = S.T('C06 C04', '__default.$i', i=i)
        else: rhs = S.T('C06', '$d ()', d=path(S, root, 'export::core::default::Default::default'))
    else:
        conv = g('conversion')
        k = S.variant(conv)
        if k == 'Block': rhs = lab('C20 C22', S.toks(S.get(S.payload(conv, 'Block'), '0')))
        elif k == 'Move': rhs = S.T('C20', 'self.$i', i=i)
        else:
            if S.variant(g('builder_pattern')) == 'Owned': sm = S.T('C02', 'Some(value) => value')
            else: sm = S.T('C02', 'Some(ref value) => $c(value)', c=path(S, root, 'export::core::clone::Clone::clone'))
            if dv is not None: none = S.T('C04', 'None => $e', e=default_expr(S, dv, root, 'C04'))
            elif S.truth(g('use_default_struct')): none = S.T('C04', 'None => __default.$i', i=i)
            else:
                none = S.T('C03', 'None => return $err($into($un($name)))', err=path(S, root, 'export::core::result::Result::Err'), into=path(S, root, 'export::core::convert::Into::into'),
                           un=path(S, root, 'UninitializedFieldError::from'), name=(('s', S.display(S.deref(fid))),))
            rhs = S.T('C02', 'match self.$i { $some, $none, }', i=i, some=sm, none=none)
    return S.T('C21', '$i : $rhs ,', i=lab('C21', i), rhs=rhs)

# ------------------------------------------------------------ build method
def build_method_tokens(S, me):
    g = lambda n: S.get(me, n)
    if not S.truth(g('enabled')): return LT()
    root = g('crate_root')
    dc = S.opt(g('doc_comment'))
    doc = S.T('', '$d', d=S.toks(dc)) if dc is not None else LT()
    tg = S.opt(g('target_ty_generics'))
    target = S.T('C02 C15', '$t $g', t=S.toks(g('target_ty')), g=S.toks(tg) if tg is not None else ())
    selfp = S.T('C02', 'self' if S.variant(g('pattern')) == 'Owned' else '&self')
    ds = S.opt(g('default_struct'))
    dflt = LT() if ds is None else S.T('C04', 'let __default : $t = $e ;', t=target, e=default_expr(S, ds, root, 'C04'))
    vf = S.opt(g('validate_fn'))
    val = LT() if vf is None else S.T('C05', '$f(&self)?;', f=S.toks(vf))
    return S.T('C02', '''$doc $vis fn $name ($selfp) -> $res<$t, $err> { $val $dflt Ok($tt { $inits }) }''',
               doc=doc, vis=lab('C12', S.toks(g('visibility'))), name=lab('C10', S.toks(g('ident'))), selfp=selfp, res=path(S, root, 'export::core::result::Result'),
               t=target, err=lab('C02 C03 C10', S.toks(g('error_ty'))), val=val, dflt=dflt, tt=lab('C02', S.toks(g('target_ty'))), inits=lab('C21', S.flat(g('initializers'))))

# ------------------------------------------------------------ builder
def impl_generics(S, me):
    """the generics of the impls: the struct's, with Clone bounds when the pattern clones"""
    g = S.opt(S.get(me, 'generics'))
    if g is None: return None
    return S.deref(g)
def builder_tokens(S, me):
    g = lambda n: S.get(me, n)
    if not S.truth(g('enabled')): return LT()
    root = g('crate_root')
    P = lambda r: path(S, root, r)
    gen = S.opt(g('generics'))
    bound = impl_bounds(S, me)
    ig, tg, wc = split(S, bound)
    gens, where = (), ()
    if gen is not None:
        gens = S.toks(S.deref(gen))
        w = S.opt(S.get(gen, 'where_clause'))
        where = S.toks(w) if w is not None else ()
    vis, ident = S.toks(g('visibility')), S.toks(g('ident'))
    V = lambda l: lab(l, vis)
    I = lambda l: lab(l, ident)
    dervs = S.deref(g('derives'))
    mdc = S.truth(g('must_derive_clone'))
    segs = ((('e', Adt('Parsed', None, (Toks(lex('Clone')),))),) if mdc else ()) + S.L.segs(S.ex, S.st, dervs)
    empty = S.truth(S.L.is_empty(S.ex, S.st, Seq(segs)))
    derive = LT() if empty else S.T('C15', '#[derive($d)]', d=(('sep', ',', segs),))
    dc = S.opt(g('doc_comment'))
    doc = S.T('', '$d', d=S.toks(dc)) if dc is not None else LT()
    allow = LT() if 'clippy' in S.ex.ctx.features else S.T('', '#[allow(clippy::all)]')
    out = S.T('C15', '$allow $derive $sa $doc $vis struct $i $gens $where { $fields }', allow=allow, derive=derive, sa=lab('C13', S.flat(g('struct_attrs'))), doc=doc,
              vis=V('C12'), i=I('C10'), gens=gens, where=where, fields=lab('C21', S.flat(g('fields'))))
    ce = S.toks(g('create_empty'))
    out = out + S.T('C15', '''$allow $ia $dead impl $ig $i $tg $wc { $fns $doc $ctor }''', allow=allow, ia=lab('C13', S.flat(g('impl_attrs'))), dead=S.T('', '#[allow(dead_code)]'),
              ig=ig, i=I('C15'), tg=tg, wc=wc, fns=lab('C21', S.flat(g('functions'))),
              doc=S.T('', '#[doc = " Create an empty builder, with all fields set to `None` or `PhantomData`."]'),
              ctor=S.T('C16', 'fn $ce () -> Self { Self { $fi } }', ce=lab('C10 C16', ce), fi=lab('C16 C21', S.flat(g('field_initializers')))))
    if S.truth(g('impl_default')):
        out = out + S.T('C16', 'impl $ig $d for $i $tg $wc { fn default() -> Self { Self::$ce() } }', ig=lab('C15 C16', ig), d=P('export::core::default::Default'), i=I('C16'), tg=lab('C15 C16', tg), wc=lab('C15 C16', wc), ce=ce)
    ge, gv = S.truth(g('generate_error')), S.truth(g('generate_validation_error'))
    if not ge: return out
    if gv and S.truth(g('no_alloc')):
        return out + lab('C17', (('h', Adt('CompileError', None, (Str(('MSG',)),))),))
    ename = S.toks(S.L.mk_ident_from(S.ex, S.st, catstr(fragment(S, g('ident')), lit('Error')), True))
    E = lambda l='C17': lab(l, ename)
    string = P('export::core::string::String')
    fmt = P('export::core::fmt')
    var = S.T('C17', 'ValidationError($s),', s=string) if gv else LT()
    frm = S.T('C17', 'impl $from<$s> for $e { fn from(s: $s) -> Self { Self::ValidationError(s) } }', **{'from': P('export::core::convert::From'), 's': string, 'e': E()}) if gv else LT()
    dsp = S.T('C17', 'Self::ValidationError(ref error) => write!(f, "{}", error),') if gv else LT()
    out = out + S.T('C17', '''$doc #[derive(Debug)] #[non_exhaustive] $vis enum $e { UninitializedField(&'static str), $var }
        impl $from<$un> for $e { fn from(s: $un) -> Self { Self::UninitializedField(s.field_name()) } }
        $frm
        impl $fmt::Display for $e { fn fmt(&self, f: &mut $fmt::Formatter) -> $fmt::Result { match self {
            Self::UninitializedField(ref field) => write!(f, "`{}` must be initialized", field), $dsp } } }''',
        **{'doc': S.T('', '#[doc = $x]', x=(('s', catstr(lit('Error type for '), S.display(S.deref(g('ident'))))),)), 'vis': V('C12 C17'), 'e': E('C10 C17'), 'var': var,
           'from': P('export::core::convert::From'), 'un': P('UninitializedFieldError'), 'frm': frm, 'fmt': fmt, 'dsp': dsp})
    if S.truth(g('std')): out = out + S.T('C17', 'impl std::error::Error for $e {}', e=E())
    return out
def impl_bounds(S, me):
    g = S.opt(S.get(me, 'generics'))
    if g is None: return None
    g = S.deref(g)
    seqt = ('typarams', g.t)
    # a builder that is cloned by a setter: its type parameters must be Clone
    clones = S.variant(S.get(me, 'pattern')) != 'Owned' or S.truth(S.get(me, 'setter_clones_builder'))
    if not clones or S.truth(Sym(('empty', seqt), 'bool')): return g
    # every type parameter keeps its bounds and gets one more: root::..::Clone
    tp = S.ex.expand(S.st, Sym(('elem', seqt), 'TypeParam'))
    names = [n for n, _ in S.ex.ctx.fields('TypeParam')]
    clone = Adt('Parsed', None, (Toks(path(S, S.get(me, 'crate_root'), 'export::core::clone::Clone').plain()),))
    bound = Adt('TypeParamBound', 'Trait', (Adt('TraitBound', None, (NONE(), Adt('TraitBoundModifier', 'None', ()), NONE(), clone)),))
    i = names.index('bounds')
    fs = list(tp.fs)
    fs[i] = Seq(S.L.segs(S.ex, S.st, fs[i]) + (('e', bound),))
    return Adt('MapParams', None, (g, (((), Adt('TypeParam', None, tuple(fs))),)))
def split(S, g):
    if g is None: g = Adt('Generics', None, (NONE(), Seq(()), NONE(), NONE()))
    w = where_items(S, g)
    return (('h', Adt('ImplGenerics', None, (g,))),), (('h', Adt('TypeGenerics', None, (g,))),), w
def where_items(S, g):
    if isinstance(g, Adt) and g.n == 'Generics': return ()
    w = wc(S.ex, S.st, g)
    if isinstance(w, Sym):
        p = S.opt(w)
        return () if p is None else S.toks(p)
    return S.toks(w)

def R(n, t): return (n, t, 'ref')
FWD = 'FieldWithDefaults'
CONTRACTS = {}
def contract(key, args, kind, spec, **kw):
    rec = kw.pop('record', None)
    recu = kw.pop('recursive', False)
    c = Contract(key, args, kind, spec, **kw)
    c.record, c.recursive = rec, recu
    CONTRACTS[key] = c
    return c

contract('FieldWithDefaults::as_setter', [R('self', FWD)], 'value', as_setter, requires=named, opaque='Setter', record='Setter')
contract('FieldWithDefaults::as_initializer', [R('self', FWD)], 'value', as_initializer, requires=named, opaque='Initializer', record='Initializer')
contract('FieldWithDefaults::as_builder_field', [R('self', FWD)], 'value', as_builder_field, requires=named, opaque='BuilderField', record='BuilderField')
contract('extract_type_from_option', [R('ty', 'Type')], 'value', extract_spec, opaque='Option<&Type>', labels='C09')
TOK = ('tokens', '', 'toks')
contract('<Setter as ToTokens>::to_tokens', [R('self', 'Setter'), TOK], 'tokens', setter_tokens, requires=setter_req, opaque=True, labels='C01 C07 C08 C09')
contract('<BuilderField as ToTokens>::to_tokens', [R('self', 'BuilderField'), TOK], 'tokens', builder_field_tokens, opaque=True, labels='C21')
contract('BuilderField::default_initializer_tokens', [R('self', 'BuilderField')], 'value', default_init_spec, opaque='TokenStream', labels='C16')
contract('<Initializer as ToTokens>::to_tokens', [R('self', 'Initializer'), TOK], 'tokens', initializer_tokens, opaque=True, labels='C02 C03 C04 C21')
contract('<BuildMethod as ToTokens>::to_tokens', [R('self', 'BuildMethod'), TOK], 'tokens', build_method_tokens, opaque=True, labels='C02')
contract('<Builder as ToTokens>::to_tokens', [R('self', 'Builder'), TOK], 'tokens', builder_tokens, opaque=True, labels='C15 C16 C17')
contract('change_span', [('tokens', 'TokenStream', 'val'), ('span', 'Span', 'val')], 'value', lambda S, t, sp: t, unfold=True, recursive=True, labels='C22 C03')

# ------------------------------------------------------------ struct-level options
def parsed_ident(s): return Adt('Parsed', None, (Toks((('id', s),)),))
def is_struct(S, o): return S.variant(S.get(o, 'data')) == 'Struct'
def struct_fields(S, o):
    """the list of the struct's fields"""
    return S.get(S.payload(S.get(o, 'data'), 'Struct'), 'fields')
def builder_ident(S, o):
    n = S.opt(S.get(o, 'name'))
    if n is not None: return n
    return S.L.mk_ident_from(S.ex, S.st, catstr(fragment(S, S.get(o, 'ident')), lit('Builder')), True)
def builder_vis(S, o):
    v = explicit_vis(S, S.get(o, 'visibility'))
    return S.get(o, 'vis') if v is None else v
def existing_error(S, o):
    e = S.opt(S.get(o, 'build_fn.error'))
    if e is None or S.variant(e) != 'Existing': return None
    return S.payload(e, 'Existing')
def error_ty(S, o):
    e = existing_error(S, o)
    if e is not None: return e
    n = S.opt(S.get(o, 'name'))
    base = catstr(fragment(S, n), lit('Error')) if n is not None else catstr(fragment(S, S.get(o, 'ident')), lit('BuilderError'))
    return parsed_ident(base)
def build_vis(S, o):
    v = explicit_vis(S, S.get(o, 'build_fn.visibility'))
    return builder_vis(S, o) if v is None else v
def derive_clone(S, o):
    """Clone is derived unless every setter and the build method own the builder"""
    if S.variant(S.get(o, 'pattern')) != 'Owned': return True
    seqt = S.deref(struct_fields(S, o)).t
    el = Sym(('elem', seqt), 'Field')
    def clones(S2):
        p = S2.opt(S2.get(el, 'pattern'))
        return S2.variant(S2.get(o, 'pattern') if p is None else p) != 'Owned'
    cs = [(lits_of(s.pc, S.st.pc), v) for s, k, v in leaves(S.ex, S.st, clones)]
    return Sym(S.L.any_term(S.ex, S.st, seqt, cs), 'bool')
def setter_clones(S, o):
    """an emitted setter that uses the immutable pattern clones the builder"""
    seqt = S.deref(struct_fields(S, o)).t
    fwd = Adt('FieldWithDefaults', None, tuple({'parent': o, 'field': Sym(('elem', seqt), 'Field')}[n] for n, _ in S.ex.ctx.fields('FieldWithDefaults')))
    cs = [(lits_of(s.pc, S.st.pc), v) for s, k, v in leaves(S.ex, S.st, lambda S2: setter_enabled(S2, fwd) and S2.variant(pattern(S2, fwd)) == 'Immutable')]
    return Sym(S.L.any_term(S.ex, S.st, seqt, cs), 'bool')
def validation_variant(S, o):
    e = S.opt(S.get(o, 'build_fn.error'))
    if e is None or S.variant(e) != 'Generated': return True
    return S.truth(S.get(S.payload(e, 'Generated'), 'validation_error.value'))

def as_builder(S, o):
    g = lambda n: (lambda S: S.get(o, n))
    return dict(
        crate_root=('C18', g('crate_root')),
        enabled=('C16', lambda S: True),
        ident=('C10', lambda S: builder_ident(S, o)),
        pattern=('C15', g('pattern')),
        derives=('C15', g('derive')),
        struct_attrs=('C13', g('attrs.struct_attrs')),
        impl_attrs=('C13', g('attrs.impl_attrs')),
        impl_default=('C16', lambda S: not present(S, S.get(o, 'custom_constructor'))),
        create_empty=('C10', g('create_empty')),
        generics=('C15', lambda S: SOME(S.deref(S.get(o, 'generics')))),
        visibility=('C12', lambda S: builder_vis(S, o)),
        fields=('C21', lambda S: Seq(())),
        field_initializers=('C21 C16', lambda S: Seq(())),
        functions=('C21', lambda S: Seq(())),
        generate_error=('C17', lambda S: existing_error(S, o) is None),
        generate_validation_error=('C17', lambda S: validation_variant(S, o)),
        no_alloc=('C17', lambda S: not (S.ex.ctx.features & {'alloc', 'lib_has_std'})),
        must_derive_clone=('C15', lambda S: derive_clone(S, o)),
        setter_clones_builder=('C15 C01', lambda S: setter_clones(S, o)),
        doc_comment=('', lambda S: NONE()),
        std=('C17', lambda S: not present(S, S.get(o, 'no_std'))))
def as_build_method(S, o):
    g = lambda n: (lambda S: S.get(o, n))
    return dict(
        crate_root=('C18', g('crate_root')),
        enabled=('C02', lambda S: not S.truth(S.get(o, 'build_fn.skip'))),
        ident=('C10', g('build_fn.name')),
        visibility=('C12', lambda S: build_vis(S, o)),
        pattern=('C02', g('pattern')),
        target_ty=('C02', g('ident')),
        target_ty_generics=('C15 C02', lambda S: SOME(Adt('TypeGenerics', None, (S.deref(S.get(o, 'generics')),)))),
        error_ty=('C02 C03 C10', lambda S: error_ty(S, o)),
        initializers=('C21', lambda S: Seq(())),
        doc_comment=('', lambda S: NONE()),
        default_struct=('C04', g('default')),
        validate_fn=('C05', g('build_fn.validate')))
contract('Options::as_builder', [R('self', 'Options')], 'value', as_builder, requires=is_struct, unfold='Builder', labels='C14')
contract('Options::as_build_method', [R('self', 'Options')], 'value', as_build_method, requires=is_struct, unfold='BuildMethod', labels='C14')

# ------------------------------------------------------------ the derive
def parsed_input(S, ast): return Sym(('from_derive_input', 'Options', S.ex.view(S.st, ast)), 'Result<Options, DarlingError>')
def parsing_ensures(S, ast):
    """what darling's derived parser (external) promises: named-field structs only"""
    r = parsed_input(S, ast)
    if S.variant(r) == 'Err': return True
    o = S.payload(r, 'Ok')
    if not is_struct(S, o): return False
    return S.opt(S.get(Sym(('elem', S.deref(struct_fields(S, o)).t), 'Field'), 'ident')) is not None
def derive_spec(S, ast):
    r = parsed_input(S, ast)
    if S.variant(r) == 'Err':
        e = S.payload(r, 'Err')
        return dict(shape=('C14', None), errors=('C14', lambda S: Toks((('errors', e),))))
    o = S.payload(r, 'Ok')
    seqt = S.deref(struct_fields(S, o)).t
    fwd = Adt('FieldWithDefaults', None, (o, Sym(('elem', seqt), 'Field')))
    def each(f): return lambda S: Seq((('map', seqt, (((), f(S)),)),))
    h = lambda v: (('e', Toks((('h', v),))),)
    out = dict(shape=('C21 C02', None))
    for n, x in as_builder(S, o).items(): out[n] = x
    for n, x in as_build_method(S, o).items(): out['build.' + n] = x
    bf = lambda S: S.use('FieldWithDefaults::as_builder_field', fwd)
    out['fields'] = ('C21', each(lambda S: h(bf(S))))
    out['field_initializers'] = ('C21 C16', each(lambda S: (('e', S.use('BuilderField::default_initializer_tokens', bf(S))),)))
    out['functions'] = ('C21', each(lambda S: h(S.use('FieldWithDefaults::as_setter', fwd))))
    out['build.initializers'] = ('C21', each(lambda S: h(S.use('FieldWithDefaults::as_initializer', fwd))))
    del out['doc_comment'], out['build.doc_comment']
    return out
def derive_parts(S, got):
    if not isinstance(got, Toks): return None
    it = got.items
    if len(it) == 1 and it[0][0] == 'errors': return dict(errors=got)
    if len(it) != 1 or it[0][0] != 'h' or not isinstance(it[0][1], Adt) or it[0][1].n != 'Builder': return None
    def rec(v, pre=''): return {pre + n: x for (n, _), x in zip(S.ex.ctx.fields(v.n), v.fs)}
    out = rec(it[0][1])
    fs = out['functions']
    if not isinstance(fs, Seq) or not fs.segs: return None
    last = fs.segs[-1]
    if last[0] != 'e' or not isinstance(last[1], Toks) or len(last[1].items) != 1 or last[1].items[0][0] != 'h': return None
    bm = last[1].items[0][1]
    if not isinstance(bm, Adt) or bm.n != 'BuildMethod': return None
    out['functions'] = Seq(fs.segs[:-1])
    out.update(rec(bm, 'build.'))
    return out
contract('builder_for_struct', [('ast', 'DeriveInput', 'val')], 'value', derive_spec, requires=parsing_ensures, parts=derive_parts, labels='C14 C21')

# ------------------------------------------------------------ attribute forwarding
def forwarded(n1, f1, n2, f2, rec):
    def spec(S, value):
        seqt = S.deref(value).t
        def route(S, a):
            """which wrapper the attribute is, if any"""
            p = Sym(('path', a.t), 'Path')
            for n in (n1, n2):
                if S.truth(Sym(('streq', ('pathident', p.t), n), 'bool')): return n
            return None
        def unusable(S, a):
            """a wrapper has to be an outer attribute around exactly one attribute"""
            if route(S, a) is None: return False
            if S.variant(S.get(a, 'meta')) != 'List' or S.variant(S.get(a, 'style')) != 'Outer': return True
            return not S.truth(Sym(('parses', 'Meta', S.toks(S.get(S.payload(S.get(a, 'meta'), 'List'), 'tokens'))), 'bool'))
        if S.any(seqt, 'Attribute', unusable): return rejected([S.mapped(seqt, 'Attribute', lambda S, a: (('e', Adt('SomeError', None, ())),) if unusable(S, a) else ())])
        def out(n):
            def f(S, a):
                r = route(S, a)
                if r is None: return (('e', a),)                      # copied to every item
                if r != n: return ()
                if unusable(S, a): return ()
                inner = S.get(S.payload(S.get(a, 'meta'), 'List'), 'tokens')
                return (('e', Adt('Parsed', None, (Toks((('p', '#'), ('g', '[', S.toks(inner)))),))),)
            return f
        return OK(Adt(rec, None, (S.mapped(seqt, 'Attribute', out(n1)), S.mapped(seqt, 'Attribute', out(n2)))))
    return spec
contract('<FieldForwardedAttrs as TryFrom>::try_from', [('value', 'Vec<Attribute>', 'val')], 'value', forwarded('builder_field_attr', 'field', 'builder_setter_attr', 'setter', 'FieldForwardedAttrs'), labels=('C13', 'C13 C14'))
contract('<StructForwardedAttrs as TryFrom>::try_from', [('value', 'Vec<Attribute>', 'val')], 'value', forwarded('builder_struct_attr', 'struct_attrs', 'builder_impl_attr', 'impl_attrs', 'StructForwardedAttrs'), labels=('C13', 'C13 C14'))

# ------------------------------------------------------------ parsing of options
def rejected(reqs):
    """an error which names each of the conflicts"""
    return ERR(Adt('Rejected', None, tuple(reqs)))
def from_list(S, items):
    r = Sym(('from_list', 'VisibilityAttrInternal', S.ex.view(S.st, S.deref(items))), 'Result<VisibilityAttrInternal, DarlingError>')
    if S.variant(r) == 'Err': return ERR(UNIT)
    p = S.payload(r, 'Ok')
    public, private, vis = present(S, S.get(p, 'public')), present(S, S.get(p, 'private')), S.opt(S.get(p, 'vis'))
    bad = [('public', w) for w, on in (('private', private), ('vis', vis is not None)) if public and on] or [('vis', 'private')] * (private and vis is not None)
    if bad: return rejected(bad)
    V = lambda k, *fs: OK(Adt('VisibilityAttr', k, fs))
    if public: return V('Public', Adt('Span', None, ()))
    if private: return V('Private')
    return V('None') if vis is None else V('Explicit', vis)
def explicit_visibility(S, me):
    v = explicit_vis(S, me)
    return NONE() if v is None else SOME(v)
def validation_needs_error(S, me):
    e = S.opt(S.get(me, 'error'))
    if S.opt(S.get(me, 'validate')) is not None and e is not None and S.variant(e) == 'Generated' and not S.truth(S.get(S.payload(e, 'Generated'), 'validation_error.value')): return rejected([('validation_error', 'validate')])
    return OK(S.deref(me))
def sub(S, m, ty, v): return Sym((m, ty, S.ex.view(S.st, S.deref(v))), 'Result<%s, DarlingError>' % ty)
def error_from_meta(S, item):
    k = S.variant(item)
    if k == 'Path': return ERR(UNIT)
    if k == 'List': r, n = sub(S, 'from_meta', 'BuildFnErrorGenerated', item), 'Generated'
    else: r, n = sub(S, 'from_expr', 'Path', S.get(S.payload(item, 'NameValue'), 'value')), 'Existing'
    if S.variant(r) == 'Err': return ERR(UNIT)
    return OK(Adt('BuildFnError', n, (S.payload(r, 'Ok'),)))
def resolve(S, me):
    if S.opt(S.get(me, 'default')) is not None:
        bad = [('default', w) for w, f in (('build', 'field.build'), ('ty', 'field.builder_type')) if S.opt(S.get(me, f)) is not None]
        if bad: return rejected(bad)
    return OK(S.deref(me))
def parse_each(S, meta):
    if S.variant(meta) == 'NameValue':
        r = sub(S, 'from_meta', 'Ident', meta)
        if S.variant(r) == 'Err': return ERR(UNIT)
        return OK(SOME(each_from(S, S.payload(r, 'Ok'))))
    r = sub(S, 'from_meta', 'Each', meta)
    if S.variant(r) == 'Err': return ERR(UNIT)
    return OK(SOME(S.payload(r, 'Ok')))
def each_from(S, name): return record(S, 'Each', name=name, into=False)
def record(S, n, **fs):
    return Adt(n, None, tuple(fs[f] if f in fs else NONE() for f, _ in S.ex.ctx.fields(n)))
def field_setter(S, meta):
    if S.variant(meta) == 'Path': return OK(record(S, 'FieldLevelSetter', skip=SOME(False)))
    return sub(S, 'from_meta', 'FieldLevelSetter', meta)

contract('<VisibilityAttr as FromMeta>::from_list', [R('items', '[NestedMeta]')], 'value', from_list, labels=('C12', 'C14'))
contract('VisibilityAttr::to_explicit_visibility', [R('self', 'VisibilityAttr')], 'value', explicit_visibility, labels='C12')
contract('BuildFn::validation_needs_error', [('self', 'BuildFn', 'val')], 'value', validation_needs_error, labels=('C14 C05', 'C14'))
contract('<BuildFnError as FromMeta>::from_meta', [R('item', 'Meta')], 'value', error_from_meta, labels=('C17', 'C14 C17'))
contract('Field::resolve', [('self', 'Field', 'val')], 'value', resolve, labels=('C14 C11', 'C14'))
contract('parse_each', [R('meta', 'Meta')], 'value', parse_each, labels=('C08', 'C08 C14'))
contract('<Each as From>::from', [('name', 'Ident', 'val')], 'value', each_from, labels='C08')
contract('field_setter', [R('meta', 'Meta')], 'value', field_setter, labels=('C06', 'C06 C14'))
contract('<BuildFn as Default>::default', [], 'value', lambda S: Adt('BuildFn', None, tuple({'skip': False, 'name': Adt('Ident', None, (lit('build'),)), 'visibility': Adt('VisibilityAttr', 'None', ())}.get(f, NONE()) for f, _ in S.ex.ctx.fields('BuildFn'))), labels='C10 C02')
contract('<BuilderPattern as Default>::default', [], 'value', lambda S: Adt('BuilderPattern', 'Mutable', ()), labels='C11 C01')
contract('<VisibilityAttr as Default>::default', [], 'value', lambda S: Adt('VisibilityAttr', 'None', ()), labels='C12')
contract('default_crate_root', [], 'value', lambda S: Adt('Parsed', None, (Toks(lex(':: derive_builder')),)), labels='C18')
contract('default_create_empty', [], 'value', lambda S: Adt('Ident', None, (lit('create_empty'),)), labels='C10')
contract('BuilderPattern::requires_clone', [R('self', 'BuilderPattern')], 'value', lambda S, me: S.variant(me) != 'Owned', labels='C15')

# ------------------------------------------------------------ user expressions
def block(e): return Adt('BlockContents', None, (Adt('Block', None, (UNIT, Seq((('e', Adt('Stmt', 'Expr', (e, NONE()))),)))),))
def code(S, text):
    """a string literal holding code: `{` text `}` as a block, the closing brace on a line of its own (the text may end with a line comment)"""
    return Sym(('parsed', 'Block', catstr(lit('{'), text, lit('\n}'))), 'Result<Block, syn::Error>')
def strvalue(S, s): return Str((('strvalue', S.deref(s).t),))
def block_try_from(S, s):
    r = code(S, strvalue(S, s))
    if S.variant(r) == 'Err': return ERR(UNIT)
    return OK(Adt('BlockContents', None, (S.payload(r, 'Ok'),)))
def block_from_value(S, v):
    if S.variant(v) != 'Str': return ERR(UNIT)
    r = code(S, strvalue(S, S.payload(v, 'Str')))
    if S.variant(r) == 'Err': return ERR(UNIT)
    b = S.payload(r, 'Ok')
    if S.truth(S.L.is_empty(S.ex, S.st, S.get(b, 'stmts'))): return ERR(UNIT)
    return OK(Adt('BlockContents', None, (b,)))
def block_from_expr(S, e):
    # only a string literal holds code, any other literal is the code
    if S.variant(e) == 'Lit':
        l = S.get(S.payload(e, 'Lit'), 'lit')
        if S.variant(l) == 'Str': return block_from_value(S, l)
    return OK(block(S.deref(e)))
def explicit(r): return OK(Adt('DefaultExpression', 'Explicit', r.fs)) if r.v == 'Ok' else r
def default_from_expr(S, e):
    if S.variant(e) == 'Lit':
        l = S.get(S.payload(e, 'Lit'), 'lit')
        if S.variant(l) == 'Str': return explicit(block_from_value(S, l))
    return OK(Adt('DefaultExpression', 'Explicit', (block(S.deref(e)),)))
contract('<BlockContents as TryFrom>::try_from', [R('s', 'LitStr')], 'value', block_try_from, labels='C22')
contract('<BlockContents as From>::from', [('v', 'Expr', 'val')], 'value', lambda S, v: block(v), labels='C22')
contract('<BlockContents as FromMeta>::from_value', [R('value', 'Lit')], 'value', block_from_value, labels='C22')
contract('<BlockContents as FromMeta>::from_expr', [R('expr', 'Expr')], 'value', block_from_expr, labels='C22')
contract('<BlockContents as ToTokens>::to_tokens', [R('self', 'BlockContents'), TOK], 'tokens', lambda S, me: lab('C22', S.toks(S.get(me, '0'))), labels='C22')
contract('<DefaultExpression as FromMeta>::from_word', [], 'value', lambda S: OK(Adt('DefaultExpression', 'Trait', ())), labels='C04')
contract('<DefaultExpression as FromMeta>::from_expr', [R('expr', 'Expr')], 'value', default_from_expr, labels='C22 C04')
contract('<DefaultExpression as FromMeta>::from_value', [R('value', 'Lit')], 'value', lambda S, v: explicit(block_from_value(S, v)), labels='C22 C04')

# ------------------------------------------------------------ the library crate
UFE = 'UninitializedFieldError'
def ufe(S, name): return Adt(UFE, None, (S.deref(name),))
LIB = {}
def libcontract(key, *a, **kw):
    c = contract(key, *a, **kw)
    del CONTRACTS[key]
    LIB[key] = c
    c.crate = 'derive_builder'
libcontract(UFE + '::new', [('field_name', '&str', 'val')], 'value', ufe, labels='C19')
libcontract(UFE + '::field_name', [R('self', UFE)], 'value', lambda S, me: S.get(me, '0'), labels='C19')
libcontract('<%s as From>::from' % UFE, [('field_name', '&str', 'val')], 'value', ufe, labels='C19')
libcontract('<%s as Clone>::clone' % UFE, [R('self', UFE)], 'value', lambda S, me: ufe(S, S.get(me, '0')), labels='C19')
libcontract('<%s as Display>::fmt' % UFE, [R('self', UFE), ('f', 'Formatter', 'fmt')], 'mut', lambda S, me: dict(
    f=('C19', lambda S: catstr(lit('Field not initialized: '), S.display(S.get(me, '0')))), result=('C19', lambda S: OK(UNIT))), labels='C19')

# ------------------------------------------------------------ the derive itself
MACRO = {}
def derive(S, input):
    r = Sym(('parse', 'DeriveInput', S.ex.view(S.st, input)), 'Result<DeriveInput, SynError>')
    if S.variant(r) == 'Err': return Toks((('h', S.payload(r, 'Err')),))
    return Sym(('builder_for_struct', S.payload(r, 'Ok')), 'TokenStream')
c = contract('derive', [('input', 'TokenStream', 'val')], 'value', derive, labels='C14 C02')
del CONTRACTS['derive']
MACRO['derive'] = c
