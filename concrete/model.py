"""Derive inputs: a model of the options, its rendering as Rust source, and random generation.

The accessors (`eff_*`) say which value of each option is in force, written from the documentation
and the property statements (not from the code under test)."""
import functools, random, re

class F:
    def __init__(self, name, ty, **o):
        self.name, self.ty = name, ty
        self.vis = o.pop('fvis', '')
        self.attrs = o.pop('attrs', [])           # source strings, forwarded or not
        self.pattern = o.pop('pattern', None)
        self.v = o.pop('v', [])                   # subset/sequence of 'public','private',('vis',x)
        self.setter = o.pop('setter', None)       # None | 'word' | dict
        self.default = o.pop('default', None)     # None | 'word' | expr source
        self.try_setter = o.pop('try_setter', False)
        self.field_v = o.pop('field_v', [])
        self.field_ty = o.pop('field_ty', None)
        self.field_build = o.pop('field_build', None)
        self.extra = o.pop('extra', {})
        assert not o, o

class S:
    def __init__(self, fields, **o):
        self.fields = fields
        self.name = o.pop('name', 'Foo')
        self.vis = o.pop('vis', 'pub')
        self.generics = o.pop('generics', [])     # list of (param source, ident, kind)
        self.where = o.pop('where', [])
        self.attrs = o.pop('attrs', [])
        self.bname = o.pop('bname', None)
        self.crate = o.pop('crate', None)
        self.pattern = o.pop('pattern', None)
        self.bf_skip = o.pop('bf_skip', False)
        self.bf_name = o.pop('bf_name', None)
        self.validate = o.pop('validate', None)
        self.bf_v = o.pop('bf_v', [])
        self.error = o.pop('error', None)         # None | path | True/False (generated(validation_error=..))
        self.derive = o.pop('derive', [])
        self.custom_constructor = o.pop('custom_constructor', False)
        self.create_empty = o.pop('create_empty', None)
        self.setter = o.pop('setter', {})         # prefix into strip_option skip
        self.default = o.pop('default', None)
        self.v = o.pop('v', [])
        self.no_std = o.pop('no_std', False)
        self.try_setter = o.pop('try_setter', False)
        self.field_v = o.pop('field_v', [])
        self.prelude = o.pop('prelude', '')
        self.tag = o.pop('tag', '')
        assert not o, o

# ------------------------------------------------------------------ rendering
def q(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'

def r_vis(v):
    return [x if isinstance(x, str) else 'vis = ' + q(x[1]) for x in v]
def r_bool(k, b, alt):
    if b is True and alt: return k
    return '%s = %s' % (k, 'true' if b else 'false')
def r_expr(k, e, alt):
    if e == 'word': return k
    return '%s = %s' % (k, q(e) if alt or re.match(r'fn |.*\} (\d|\{)', e) or e.startswith('"') and e.endswith('"') or not re.match(r'^[\w:(){}.,<>!\[\] +*&|"\'-]*$', e) else e)

def r_setter(d, alt, fld):
    o = []
    for k in ('prefix', 'name', 'into', 'strip_option', 'skip', 'custom', 'each'):
        if k not in d or d[k] is None: continue
        x = d[k]
        if k in ('prefix', 'name'): o.append('%s = %s' % (k, q(x)))
        elif k == 'each':
            n, into = x
            if into is None: o.append('each = %s' % q(n))
            else: o.append('each(name = %s, %s)' % (q(n), r_bool('into', into, alt)))
        else: o.append(r_bool(k, x, alt))
    return 'setter(%s)' % ', '.join(o)

def field_opts(f, alt):
    o = []
    if f.pattern: o.append('pattern = %s' % q(f.pattern))
    o += r_vis(f.v)
    if f.setter == 'word': o.append('setter')
    elif f.setter: o.append(r_setter(f.setter, alt, f))
    if f.default: o.append(r_expr('default', f.default, alt))
    if f.try_setter: o.append('try_setter')
    g = r_vis(f.field_v)
    if f.field_ty: g.append('ty = %s' % q(f.field_ty))
    if f.field_build: g.append(r_expr('build', f.field_build, alt))
    if g: o.append('field(%s)' % ', '.join(g))
    return o

def struct_opts(s, alt):
    o = []
    if s.bname: o.append('name = %s' % q(s.bname))
    if s.crate: o.append('crate = %s' % q(s.crate))
    if s.pattern: o.append('pattern = %s' % q(s.pattern))
    b = []
    if s.bf_skip: b.append(r_bool('skip', True, alt))
    if s.bf_name: b.append('name = %s' % q(s.bf_name))
    if s.validate: b.append('validate = %s' % q(s.validate))
    b += r_vis(s.bf_v)
    if s.error is True or s.error is False: b.append('error(validation_error = %s)' % str(s.error).lower())
    elif s.error: b.append('error = %s' % q(s.error))
    if b: o.append('build_fn(%s)' % ', '.join(b))
    if s.derive: o.append('derive(%s)' % ', '.join(s.derive))
    if s.custom_constructor: o.append('custom_constructor')
    if s.create_empty: o.append('create_empty = %s' % q(s.create_empty))
    if s.setter: o.append(r_setter(s.setter, alt, None))
    if s.default: o.append(r_expr('default', s.default, alt))
    o += r_vis(s.v)
    if s.no_std: o.append('no_std')
    if s.try_setter: o.append('try_setter')
    if s.field_v: o.append('field(%s)' % ', '.join(r_vis(s.field_v)))
    return o

def split_builder(opts, rnd):
    """one or two #[builder(..)] attributes"""
    if not opts: return []
    if len(opts) > 1 and rnd.random() < .3:
        k = rnd.randrange(1, len(opts))
        return ['#[builder(%s)]' % ', '.join(opts[:k]), '#[builder(%s)]' % ', '.join(opts[k:])]
    return ['#[builder(%s)]' % ', '.join(opts)]

def interleave(a, b, rnd):
    a, b, o = list(a), list(b), []
    while a or b:
        if a and (not b or rnd.random() < len(a) / (len(a) + len(b))): o.append(a.pop(0))
        else: o.append(b.pop(0))
    return o

def render(s, seed=0, derive=False):
    rnd = random.Random(repr((seed, s.tag)))
    alt = rnd.random() < .5
    o = []
    if derive: o.append('#[derive(%s)]' % derive)
    o += interleave(s.attrs, split_builder(struct_opts(s, alt), rnd), rnd)
    g = '<%s>' % ', '.join(p[0] for p in s.generics) if s.generics else ''
    w = ' where %s' % ', '.join(s.where) if s.where else ''
    o.append('%s struct %s%s%s {' % (s.vis, s.name, g, w))
    for f in s.fields:
        o += ['    ' + a for a in interleave(f.attrs, split_builder(field_opts(f, alt), rnd), rnd)]
        o.append('    %s %s: %s,' % (f.vis, f.name, f.ty))
    o.append('}')
    return '\n'.join(o)

# ------------------------------------------------------------------ tokens
LEX = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|(?P<raw>b?r(\#*)".*?"\2)|(?P<str>b?"(?:\\.|[^"\\])*")|(?P<chr>b?'(?:\\.|[^'\\])')|(?P<lt>'[^\W\d]\w*)|(?P<id>(?:r\#)?[^\W\d]\w*)|(?P<num>\d+\.\d[\w]*|\d\w*)|(?P<p>.)''', re.S)
@functools.lru_cache(None)
def lex(src):
    o = []
    for m in LEX.finditer(src):
        if m.lastgroup is None: continue
        t = m.group(0)
        if m.lastgroup == 'lt': o += ["'", t[1:]]     # proc_macro2 prints lifetimes as ' and ident
        else: o.append(t)
    return tuple(o)
@functools.lru_cache(None)
def norm(src): return ' '.join(lex(src))
@functools.lru_cache(100000)
def out(s): return ' '.join(lex(s))          # tokens printed by the driver, in the same form

# ------------------------------------------------------------------ options in force
def unraw(n): return n[2:] if n.startswith('r#') else n
def sd(f): return f.setter if isinstance(f.setter, dict) else {}

def field_enabled(s, f):
    d = sd(f)
    if f.setter == 'word': return True
    if d.get('skip') is not None: return not d['skip']
    if any(d.get(k) is not None for k in ('prefix', 'name', 'into', 'strip_option', 'each')) or d.get('custom') is False: return True
    if s.setter.get('skip') is not None: return not s.setter['skip']
    return True
def setter_enabled(s, f):
    if sd(f).get('custom') is True: return False
    return field_enabled(s, f)
def eff_setter(s, f, k):
    x = sd(f).get(k)
    if x is None: x = s.setter.get(k)
    return x
def no_default(decl):
    """a generic parameter without its default"""
    d = 0
    for i, c in enumerate(decl):
        if c in '<({[' : d += 1
        elif c in '>)}]' and decl[i-1:i] != '-': d -= 1
        elif c == '=' and d == 0: return decl[:i].rstrip()
    return decl
def eff_pattern(s, f): return f.pattern or s.pattern or 'mutable'
def struct_pattern(s): return s.pattern or 'mutable'
def setter_name(s, f):
    n = sd(f).get('name')
    if n: return n
    p = eff_setter(s, f, 'prefix')
    return '%s_%s' % (unraw(p), unraw(f.name)) if p else f.name
def builder_name(s): return s.bname or unraw(s.name) + 'Builder'
def error_name(s): return unraw(builder_name(s)) + 'Error'
def explicit_vis(v):
    if not v: return None
    x = v[0]
    return {'public': 'pub', 'private': ''}[x] if isinstance(x, str) else x[1]
def builder_vis(s):
    v = explicit_vis(s.v)
    return s.vis if v is None else v
def setter_vis(s, f):
    for v in (explicit_vis(f.v), explicit_vis(s.v)):
        if v is not None: return v
    return 'pub'
def field_vis(s, f):
    v = explicit_vis(f.field_v)
    if v is not None: return v
    if not field_enabled(s, f): return ''
    v = explicit_vis(s.field_v)
    return '' if v is None else v
def build_vis(s):
    v = explicit_vis(s.bf_v)
    return builder_vis(s) if v is None else v
def try_setter(s, f): return setter_enabled(s, f) and (f.try_setter or s.try_setter)
def root(s): return s.crate or '::derive_builder'

OPT = re.compile(r'^(?:: : )?(?:(?:std|core) : : option : : )?Option < (.*) >$')
def option_inner(ty):
    """X if ty is written Option<X> (or by its full path)"""
    m = OPT.match(norm(ty))
    if not m: return None
    inner, d = m.group(1).split(' '), 0
    for i, t in enumerate(inner):
        if t in '<([{': d += 1
        elif t in '>)]}' and not (t == '>' and i and inner[i-1] == '-'):
            d -= 1
            if d < 0: return None
        elif t == ',' and d == 0 and i < len(inner) - 1: return None
    if inner[-1] == ',': inner = inner[:-1]
    if inner[0] == "'": return None
    return ' '.join(inner)
def base_ty(f): return f.field_ty or f.ty
def param_ty(s, f):
    t = norm(base_ty(f))
    if eff_setter(s, f, 'strip_option'):
        i = option_inner(t)
        if i is not None: return i, True
    return t, False
def attr_path(a):
    m = re.match(r'#\[\s*([\w:]+)', a); return m.group(1)
def unwrap(a): return '#[' + re.match(r'#\[\s*\w+\s*[\(\[\{](.*)[\)\]\}]\s*\]$', a, re.S).group(1) + ']'
def field_attrs(f, which):
    o = []
    for a in f.attrs:
        p = attr_path(a)
        if p in ('doc', 'cfg', 'allow'): o.append(norm(a))
        elif p == 'builder_%s_attr' % which: o.append(norm(unwrap(a)))
    return o
def struct_attrs(s, which):
    o = []
    for a in s.attrs:
        p = attr_path(a)
        if p in ('cfg', 'allow'): o.append(norm(a))
        elif p == 'builder_%s_attr' % which: o.append(norm(unwrap(a)))
    return o
