"""What the expansion must declare for a modelled derive input; mismatches are (properties, text)."""
import re
from model import *

def bad_wrapper(a):
    """a wrapper holds exactly one attribute"""
    m = re.match(r'#\[\s*\w+\s*[\(\[\{](.*)[\)\]\}]\s*\]$', a, re.S)
    if not m: return True
    t = norm(m.group(1)).strip()
    if t.endswith(',') or len(split_commas(t)) != 1: return True
    return not re.match(r"^(: : )?[A-Za-z_]\w*( : : \w+)*( [(\[{] .*[)\]}]| = \S.*)?$", t)

def expected_errors(s):
    """list of (kind, needed words) for every contradiction in the input"""
    all_, o = [], []
    def vis(v):
        names = [x if isinstance(x, str) else 'vis' for x in v]
        if 'public' in names and 'private' in names: o.append(('vis', ['public', 'private']))
        if 'public' in names and 'vis' in names: o.append(('vis', ['public', 'vis']))
        elif 'vis' in names and 'private' in names: o.append(('vis', ['vis', 'private']))
    vis(s.v); vis(s.field_v)
    n = len(o)
    vis(s.bf_v)
    if s.validate and s.error is False and len(o) == n: o.append(('validate', ['validation_error', 'validate']))
    for a in s.attrs:
        if attr_path(a) in ('builder_struct_attr', 'builder_impl_attr') and bad_wrapper(a): o.append(('wrapper', []))
    # errors are found in stages: the struct's own options, each field's options, each field's combinations
    if o: return o
    for f in s.fields:
        all_ += o
        o.clear()
        vis(f.v); vis(f.field_v)
        for a in f.attrs:
            if attr_path(a) in ('builder_field_attr', 'builder_setter_attr') and bad_wrapper(a): o.append(('wrapper', []))
        if o: continue
        if f.default and f.field_build: o.append(('default', ['default', 'build']))
        if f.default and f.field_ty: o.append(('default', ['default', 'ty']))
    return all_ + o

def parse_errors(r):
    t = r['tokens']
    return [eval(m) for m in re.findall(r'compile_error ! [({] ("(?:\\.|[^"\\])*") [)}]', t)]

def sub(needle, hay):
    return (' ' + needle + ' ') in (' ' + hay + ' ')

def code_tokens(e): return norm(e)

BENIGN = ('inline', 'must_use', 'automatically_derived', 'doc', 'allow')
def mine_of(s):
    return {norm(y) for a in s.attrs + [a for f in s.fields for a in f.attrs] for y in [a] + ([unwrap(a)] if re.match(r'#\[\s*\w+\s*[\(\[\{].*[\)\]\}]\s*\]$', a, re.S) else [])}

def own(attrs, s):
    """the attributes without those that do not occur in the input and change no behaviour: they are the generator's own"""
    mine = mine_of(s)
    return [a for a in attrs if a in mine or not any(a.startswith('# [ %s ' % k) for k in BENIGN)]

def check(s, r, feats=('lib_has_std',)):
    bad = []
    def B(props, msg): bad.append((props.split(), msg))
    ee = expected_errors(s)
    if 'invalid' in r: return [(['HARNESS'], 'input does not parse: ' + r['invalid'])]
    if 'panic' in r and r.get('panic', 0) is not None or 'panic' in r:
        why = 'the macro panics: %s' % r['panic']
        if 'try_' in str(r['panic']): B('C07 C10 C02', why)
        elif 'phantom' in str(r['panic']): B('C06 C02', why)
        elif any(k == 'wrapper' for k, _ in ee): B('C13 C14', why)
        elif ee: B('C14', why)
        else: B('C02 C10 C14 C06 C07 C20 C21', why)
        return bad
    if 'unparsable' in r: B('C02 C18 C22', 'the expansion is not a sequence of items: ' + r['unparsable']); return bad
    code = s.default or any(f.default or f.field_build for f in s.fields)
    unread = lambda ms: ' C22' if code and any(re.search(r'cannot parse|unexpected (end|token)|^expected |lex error|empty expression|^Unexpected (literal )?type', m) for m in ms) else ''
    errs = [i for i in r['items'] if i['kind'] == 'macro']
    rest = [i for i in r['items'] if i['kind'] != 'macro']
    msgs = [i.get('text') or '' for i in errs]
    if ee:
        vis_only = {k for k, _ in ee}
        pp = 'C14 C13' if vis_only == {'wrapper'} else 'C13 C14' if 'wrapper' in vis_only else 'C14'
        if rest: B(pp, 'contradictory options were accepted: %s' % (ee,)); return bad
        if len(msgs) != len(ee): B('C22 C14' if unread(msgs) else pp, 'expected %d errors %s, got %s' % (len(ee), ee, msgs)); return bad
        left = list(msgs)
        for k, words in ee:
            for m in left:
                if all(('`%s`' % w in m or w in m) for w in words): left.remove(m); break
            else: B(pp, 'no error names the conflict %s: %s' % (words, msgs)); return bad
        return bad
    generate = s.error in (None, True, False)
    no_alloc = not (set(feats) & {'alloc', 'lib_has_std'})
    if no_alloc and generate and s.error is not False:
        if len(msgs) != 1 or 'alloc' not in msgs[0]: B('C17' if not unread(msgs) else 'C22', 'expected the allocator error, got %s' % msgs); return bad
        noenum = True
    else:
        noenum = not generate
        if errs: B('C14' + unread(msgs) + (' C17' if any('alloc' in m for m in msgs) else ''), 'rejected without a contradiction: %s' % msgs); return bad
    structs = [i for i in rest if i['kind'] == 'struct']
    enums = [i for i in rest if i['kind'] == 'enum']
    impls = [i for i in rest if i['kind'] == 'impl']
    if len(structs) != 1: B('C10 C21', '%d builder structs' % len(structs)); return bad
    st = structs[0]
    rt = norm(root(s))
    core = rt + ' : : export : : core : : '
    # ---- names
    bn = builder_name(s)
    if unraw(st['name']) != unraw(bn): B('C10', 'builder is called %s, expected %s' % (st['name'], bn))
    bn = st['name']
    if out(st['vis']) != norm(builder_vis(s)): B('C12', 'builder visibility `%s`, expected `%s`' % (st['vis'], builder_vis(s)))
    # ---- generics
    if [out(p) for p in st['generics']['params']] != [norm(g[0].rstrip(': ')) if g[0].endswith(': ') else norm(g[0]) for g in s.generics]:
        if not any(g[0].endswith(': ') for g in s.generics): B('C15', 'builder generics %s' % st['generics'])
    if [out(p) for p in st['generics']['where'] or []] != [norm(w) for w in s.where]: B('C15', 'builder where clause %s' % st['generics'])
    # ---- derives and attributes
    pats = [eff_pattern(s, f) for f in s.fields]
    need = struct_pattern(s) != 'owned' or any(p != 'owned' for p in pats)
    exp = (['Clone'] if need else []) + [norm(d) for d in s.derive]
    sa = [out(a) for a in st['attrs']]
    user = struct_attrs(s, 'struct')
    nuser_derive = sum(a.startswith('# [ derive') for a in user)
    der = [a for a in sa if a.startswith('# [ derive (')]
    mine = der[:len(der) - nuser_derive] if nuser_derive else der
    got = [x for d in mine for x in split_commas(d[len('# [ derive ('):-len(') ]')].strip())]
    if got != exp: B('C15', 'derives %s, expected %s' % (got, exp))
    if (bool(got) and got[0] == 'Clone') != need: B('C15 C02', 'Clone is%s derived' % ('' if got else ' not'))
    if nuser_derive and mine and sa.index(mine[-1]) > sa.index([a for a in user if a.startswith('# [ derive')][0]): B('C13', 'derive after forwarded attributes')
    x = [a for a in sa if a not in mine and a != '# [ allow ( clippy : : all ) ]']
    if x and x[-1].startswith('# [ doc = "Builder for'): x = x[:-1]
    if own(x, s) != user: B('C13', 'builder struct attributes %s, expected %s' % (x, user))
    # ---- fields
    names = [f['name'] for f in st['fields']]
    if names != [f.name for f in s.fields]:
        B('C21', 'builder fields %s, expected %s' % (names, [f.name for f in s.fields]))
        if sorted(names) == sorted(f.name for f in s.fields) or len(names) != len(s.fields): return bad
        B('C10', 'builder field names %s' % names); return bad
    for f, g in zip(s.fields, st['fields']):
        en = field_enabled(s, f)
        if not en: exp, pr = core + 'marker : : PhantomData < %s >' % norm(f.ty), 'C06'
        elif f.field_ty: exp, pr = norm(f.field_ty), 'C20'
        else: exp, pr = core + 'option : : Option < %s >' % norm(f.ty), 'C01 C06 C16'
        if out(g['ty']) != exp:
            B(pr + (' C18' if out(g['ty']).replace(rt, '') == exp.replace(rt, '') else '') + ' C21 C11', 'type of builder field %s is `%s`, expected `%s`' % (f.name, out(g['ty']), exp))
        if out(g['vis']) != norm(field_vis(s, f)): B('C12 C11' + (' C06' if not en else ''), 'visibility of builder field %s is `%s`, expected `%s`' % (f.name, g['vis'], field_vis(s, f)))
        ga = [out(a) for a in g['attrs']]
        if own(ga, s) != field_attrs(f, 'field'): B('C13', 'attributes of builder field %s are %s, expected %s' % (f.name, ga, field_attrs(f, 'field')))
    # ---- impl
    inh = [i for i in impls if i['trait'] is None]
    if len(inh) != 1: B('C02 C21', '%d inherent impls' % len(inh)); return bad
    im = inh[0]
    ia = [a for a in (out(a) for a in im['attrs']) if a not in ('# [ allow ( clippy : : all ) ]', '# [ allow ( dead_code ) ]')]
    if own(ia, s) != struct_attrs(s, 'impl'): B('C13', 'impl attributes %s, expected %s' % (ia, struct_attrs(s, 'impl')))
    # what the user wrote goes nowhere else
    user_attrs = {a for a in mine_of(s) if not a.startswith(('# [ allow', '# [ doc', '# [ inline', '# [ must_use', '# [ derive'))}
    for i in [i for i in impls if i['trait']] + enums:
        x = [a for a in (out(a) for a in i['attrs']) if a in user_attrs]
        if x: B('C13', 'attributes %s on %s' % (x, i.get('trait') or i.get('name')))
    clone = struct_pattern(s) != 'owned' or any(setter_enabled(s, f) and eff_pattern(s, f) == 'immutable' for f in s.fields)
    def impl_params(i):
        o = []
        for g in s.generics:
            p = norm(no_default(g[0]).rstrip(': '))
            if g[2] == 'ty' and clone:
                b = core + 'clone : : Clone'
                p = p + (' + ' if ':' in p else ' : ') + b
            o.append(p)
        return o
    selfty = bn + (' < %s >' % ' , '.join(norm(g[1]) for g in s.generics) if s.generics else '')
    for i in impls:
        if i['trait'] is not None and 'Default' not in i['trait'].split(): continue
        if [out(p) for p in i['generics']['params']] != impl_params(i): B('C15' + (' C18' if clone and s.generics else ''), 'impl generics %s, expected %s' % (i['generics']['params'], impl_params(i)))
        if [out(p) for p in i['generics']['where'] or []] != [norm(w) for w in s.where]: B('C15', 'impl where clause %s' % i['generics'])
        if re.sub(r' , >$', ' >', out(i['self'])) != selfty: B('C15 C10', 'impl for %s, expected %s' % (i['self'], selfty))
    # ---- methods
    fns = im['fns']
    exp = []
    for f in s.fields:
        if not setter_enabled(s, f): continue
        exp.append(('set', f, setter_name(s, f)))
        if try_setter(s, f): exp.append(('try', f, 'try_' + unraw(setter_name(s, f))))
        e = sd(f).get('each')
        if e: exp.append(('each', f, e[0]))
    if not s.bf_skip: exp.append(('build', None, s.bf_name or 'build'))
    exp.append(('empty', None, s.create_empty or 'create_empty'))
    gn, en_ = [f.get('name') for f in fns], [e[2] for e in exp]
    if gn != en_:
        pr = {'C21'}
        if len(gn) == len(en_): pr |= {'C10', 'C11'}
        for k, f, n in exp:
            if n not in gn: pr |= {'set': {'C06', 'C10', 'C11', 'C01'}, 'try': {'C07', 'C10'}, 'each': {'C08', 'C10'}, 'build': {'C02', 'C10'}, 'empty': {'C16', 'C10'}}[k]
        for n in gn:
            if n not in en_:
                pr |= {'C06', 'C11'} if not str(n).startswith('try_') else {'C07'}
                if n in (s.bf_name or 'build',): pr |= {'C02'}
                if str(n).startswith('each_') or n == 'e': pr |= {'C08'}
        if sorted(map(str, gn)) == sorted(en_): pr = {'C21'}
        B(' '.join(sorted(pr)), 'methods %s, expected %s' % (gn, en_))
    byname = {}
    for f in fns: byname.setdefault(f.get('name'), []).append(f)
    for k, f, n in exp:
        m = byname.get(n)
        if not m: continue
        m = m.pop(0)
        if k in ('set', 'try', 'each'): check_setter(s, f, k, m, B, core)
        elif k == 'build': check_build(s, m, B, core, rt)
        elif k == 'empty':
            if out(m['vis']) != '' or m['inputs'] or out(m['output']) != 'Self': B('C16', 'empty constructor signature')
            inits = (m['fields'] or {}).get('inits')
            if inits is None: B('C16', 'empty constructor body %s' % m['body']); continue
            if [i['name'] for i in inits] != [f.name for f in s.fields]: B('C16 C21', 'empty constructor initializes %s' % [i['name'] for i in inits])
            else:
                for f, i in zip(s.fields, inits):
                    e = core + 'default : : Default : : default ( )'
                    alts = {e}
                    if not field_enabled(s, f): alts |= {core + 'marker : : PhantomData'}
                    elif not f.field_ty: alts |= {core + 'option : : Option : : None', 'None'}
                    if out(i['expr']) not in alts: B('C16 C18', 'empty constructor sets %s to %s' % (f.name, i['expr']))
    # ---- Default
    dfl = [i for i in impls if i['trait'] and out(i['trait']).endswith('default : : Default')]
    if len(dfl) != (0 if s.custom_constructor else 1): B('C16', '%d Default impls' % len(dfl))
    for d in dfl:
        if out(d['trait']) != core + 'default : : Default': B('C18', 'Default impl path %s' % d['trait'])
        b = out(d['fns'][0]['body']) if d['fns'] else ''
        if b not in ('{ Self : : %s ( ) }' % (s.create_empty or 'create_empty'), '{ < Self > : : %s ( ) }' % (s.create_empty or 'create_empty')): B('C16', 'Default body %s' % b)
    # ---- error type
    check_error(s, enums, impls, bn, B, core, rt, noenum)
    # ---- crate root
    check_root(s, r, B, rt)
    return bad

def split_commas(t):
    o, d = [''], 0
    for x in t.split(' '):
        if x in '([{<': d += 1
        if x in ')]}>': d -= 1
        if x == ',' and d == 0: o.append('')
        else: o[-1] = (o[-1] + ' ' + x).strip()
    return [x for x in o if x]

SELF = {'owned': ('self', 'Self'), 'mutable': ('& mut self', '& mut Self'), 'immutable': ('& self', 'Self')}

def check_setter(s, f, k, m, B, core):
    pr = {'set': '', 'try': ' C07', 'each': ' C08'}[k]
    who = '%s (%s of %s)' % (m['name'], k, f.name)
    if out(m['vis']) != norm(setter_vis(s, f)): B('C12 C11' + (' C08' if k == 'each' else ''), 'visibility of %s is `%s`, expected `%s`' % (who, m['vis'], setter_vis(s, f)))
    a = [out(x) for x in m['attrs']]
    exp = field_attrs(f, 'setter')
    b = list(a)
    if '# [ allow ( unused_mut ) ]' in b and '# [ allow ( unused_mut ) ]' not in exp: b.remove('# [ allow ( unused_mut ) ]')
    if own(b, s) != exp: B('C13' + pr, 'attributes of %s are %s, expected %s' % (who, a, exp))
    sp, ret = SELF[eff_pattern(s, f)]
    if k == 'try':
        o = out(m['output']); mm = re.match(r'^%s < (.*) , (.*) >$' % re.escape(core + 'result : : Result'), o)
        ro = mm.group(1) if mm else o
        if not mm and 'Result' in o.split(): B('C18', 'result type of %s: %s' % (who, o)); ro = ret
    else: ro = out(m['output'])
    if re.sub(r'^mut ', '', out(m['inputs'][0])) != sp or ro != ret: B('C01 C11' + pr, 'receiver and result of %s are `%s` -> `%s`, expected `%s` -> `%s`' % (who, m['inputs'][0], m['output'], sp, ret))
    if len(m['inputs']) != 2: B('C01' + pr, 'parameters of %s: %s' % (who, m['inputs'])); return
    pty = out(m['inputs'][1]).split(' : ', 1)[1]
    ty, stripped = param_ty(s, f)
    gp = [out(p) for p in m['generics']['params']]
    cust = ' C20' if f.field_ty else ''
    if k == 'set':
        if eff_setter(s, f, 'into'):
            if len(gp) != 1 or not gp[0].startswith(pty + ' : ') or gp[0] != '%s : %sconvert : : Into < %s >' % (pty, core, ty):
                B('C09 C11' + cust + (' C18' if len(gp) == 1 and gp[0].endswith('Into < %s >' % ty) else ''), 'parameter of %s: <%s> %s, expected any Into<%s>' % (who, gp, pty, ty))
        elif gp or pty != ty: B('C09 C11' + cust, 'parameter of %s: <%s> %s, expected %s' % (who, gp, pty, ty))
        want = core + 'option : : Option : : Some'
        b = out(m['body'])
    elif k == 'try':
        if len(gp) != 1 or gp[0] != '%s : %sconvert : : TryInto < %s >' % (pty, core, ty): B('C07 C09' + cust + (' C18' if len(gp) == 1 and gp[0].endswith('TryInto < %s >' % ty) else ''), 'parameter of %s: <%s> %s, expected any TryInto<%s>' % (who, gp, pty, ty))
    else:
        into = sd(f)['each'][1]
        w = [out(x) for x in m['generics']['where'] or []]
        if into:
            ok = len(gp) == 2 and pty in [g.split(' ')[0] for g in gp] and any('%s : %sconvert : : Into < %s >' % (pty, core, [g.split(' ')[0] for g in gp if g.split(' ')[0] != pty][0]) == g for g in gp)
            item = [g.split(' ')[0] for g in gp if g.split(' ')[0] != pty][:1]
        else:
            ok = gp == [pty]; item = [pty]
        if not ok: B('C08' + (' C18' if 'Into' in ' '.join(gp) else ''), 'parameter of %s: <%s> %s' % (who, gp, pty))
        elif not any(x.startswith(ty + ' : ') and core + 'iter : : Extend < %s >' % item[0] in x for x in w): B('C08 C18 C09', 'where clause of %s: %s' % (who, w))

def user_block(e):
    return norm(e)

def has_user(e, t):
    return sub(user_block(e), t)

def check_build(s, m, B, core, rt):
    if out(m['vis']) != norm(build_vis(s)): B('C12', 'visibility of %s is `%s`, expected `%s`' % (m['name'], m['vis'], build_vis(s)))
    sp = 'self' if struct_pattern(s) == 'owned' else '& self'
    if [re.sub('^mut ', '', out(i)) for i in m['inputs']] != [sp]: B('C02', 'parameters of %s: %s, expected %s' % (m['name'], m['inputs'], sp))
    tgt = norm(s.name) + (' < %s >' % ' , '.join(norm(g[1]) for g in s.generics) if s.generics else '')
    et = norm(s.error) if isinstance(s.error, str) else error_name(s)
    o = re.sub(r' , >', ' >', out(m['output']))
    if not re.match(r'^%sresult : : Result < %s , %s >$' % tuple(re.escape(x) for x in (core, tgt, et)), o):
        p = 'C02'
        if not o.endswith(et + ' >'): p += ' C17 C03 C10'
        if not o.startswith(core): p += ' C18'
        if tgt not in o: p += ' C15'
        B(p, 'result of %s is %s' % (m['name'], o))
    fl = m['fields']
    if fl is None: B('C02', 'body of %s does not end in a struct expression: %s' % (m['name'], m['body'])); return
    if out(fl['path']) != norm(s.name) or fl['rest']: B('C02', '%s constructs %s' % (m['name'], fl['path']))
    stm = [out(x) for x in fl['stmts']]
    nm = [i['name'] for i in fl['inits']]
    if nm != [f.name for f in s.fields]:
        B('C21' + (' C02' if sorted(nm) != sorted(f.name for f in s.fields) else ' C03'), '%s initializes %s, expected %s' % (m['name'], nm, [f.name for f in s.fields])); return
    body = out(m['body'])
    # whatever surrounds it, the user's code is there token by token
    codes = [s.default] + [f.field_build if field_enabled(s, f) and f.field_build else f.default for f in s.fields if not (field_enabled(s, f) and f.field_ty and not f.field_build)]
    for e in codes:
        if not e or e == 'word': continue
        e = user_block(e)
        if re.match(r'^\{ [^{}]* \}$', e): e = e[2:-2]
        if e and not sub(e, body): B('C22', 'the code `%s` is not in %s: %s' % (e, m['name'], body))
    # validation
    k = 0
    if s.validate:
        if not stm or not stm[0].startswith(norm(s.validate) + ' (') or '?' not in stm[0]: B('C05', 'validator is not the first statement: %s' % stm)
        else: k = 1
    # struct default
    ds = None
    if s.default:
        if len(stm) <= k: B('C04 C22', 'struct default is not computed: %s' % stm)
        else:
            t = stm[k]
            e = core + 'default : : Default : : default ( )' if s.default == 'word' else user_block(s.default)
            mm = re.match(r'^let (\w+) ', t)
            if not mm or not sub(e, t):
                B('C04 C22' + (' C18' if s.default == 'word' else ''), 'struct default statement %s' % t)
            elif s.default != 'word' and '= { %s } ;' % e not in t: B('C22 C04', 'struct default block %s' % t)
            ds = mm.group(1) if mm else None
            k += 1
    if len(stm) != k: B('C05 C04 C02', 'statements before the struct expression: %s' % stm)
    for f, i in zip(s.fields, fl['inits']):
        t = out(i['expr']).strip()
        d = f.default
        bl = lambda e: '{ %s }' % user_block(e)
        dd = core + 'default : : Default : : default ( )'
        def isdefault(t, pr):
            if d == 'word':
                if t != dd: B(pr + ' C04 C18', 'default of %s is %s' % (f.name, t))
            elif d:
                if t != bl(d): B(pr + ' C04 C22', 'default of %s is %s, expected %s' % (f.name, t, bl(d)))
            elif s.default:
                if ds is None or t != '%s . %s' % (ds, f.name): B(pr + ' C04', 'default of %s is %s, expected the struct default\'s field' % (f.name, t))
            else: return False
            return True
        if not field_enabled(s, f):
            if not isdefault(t, 'C06') and t != dd: B('C06 C18', 'skipped field %s is initialized by %s' % (f.name, t))
        elif f.field_build:
            if t != bl(f.field_build): B('C20 C22', 'build expression of %s is %s, expected %s' % (f.name, t, bl(f.field_build)))
        elif f.field_ty:
            if t != 'self . %s' % f.name: B('C20', 'initializer of %s is %s' % (f.name, t))
        else:
            mm = re.match(r'^match self \. (\S+) \{ (.*?), None = > (.*?) ,? ?\}$', t)
            if not mm:
                continue       # some other form: decided by running it
            if mm.group(1) != f.name: B('C02 C21', 'initializer of %s reads %s' % (f.name, mm.group(1)))
            some, none = mm.group(2).strip(), mm.group(3).strip()
            owned = struct_pattern(s) == 'owned'
            if ('clone' in some) == owned: B('C02', 'field %s in a build method with pattern %s: %s' % (f.name, struct_pattern(s), some))
            if not owned and core + 'clone : : Clone : : clone' not in some: B('C18', 'clone path %s' % some)
            if not isdefault(none, 'C04'):
                if not sub('return', none) or not sub(rt + ' : : UninitializedFieldError', none): B('C03 C18', 'missing field %s: %s' % (f.name, none))
                if not (sub('"%s"' % f.name, none) or sub('"%s"' % unraw(f.name), none)): B('C03', 'missing field %s is reported as %s' % (f.name, none))

def check_error(s, enums, impls, bn, B, core, rt, noenum):
    ename = error_name(s)
    eimpl = [i for i in impls if i['trait'] and 'Default' not in i['trait'].split()]
    if noenum:
        if enums or eimpl: B('C17', 'an error type is generated: %s' % [e['name'] for e in enums])
        return
    if len(enums) != 1: B('C17', '%d error types' % len(enums)); return
    e = enums[0]
    val = s.error is not False
    if unraw(e['name']) != unraw(ename): B('C10 C17', 'error type is called %s, expected %s' % (e['name'], ename))
    if out(e['vis']) != norm(builder_vis(s)): B('C12 C17', 'visibility of %s is `%s`, expected `%s`' % (e['name'], e['vis'], builder_vis(s)))
    at = [out(a) for a in e['attrs']]
    if '# [ derive ( Debug ) ]' not in at: B('C17', 'error type is not Debug: %s' % at)
    if '# [ non_exhaustive ]' not in at: B('C17', 'error type is not non-exhaustive')
    vs = [(v['name'], [out(f['ty']) for f in v['fields']]) for v in e['variants']]
    exp = [('UninitializedField', ["& ' static str"])] + ([('ValidationError', [rt + ' : : export : : core : : string : : String'])] if val else [])
    vs.sort()
    if [v[0] for v in vs] != [v[0] for v in exp] or vs[0][1] != exp[0][1]: B('C17', 'variants %s, expected %s' % (vs, exp))
    elif vs != exp: B('C17 C18', 'variants %s, expected %s' % (vs, exp))
    tr = sorted(out(i['trait']) for i in eimpl)
    et = sorted([core + 'convert : : From < %s : : UninitializedFieldError >' % rt, core + 'fmt : : Display'] + ([core + 'convert : : From < %s : : export : : core : : string : : String >' % rt] if val else []))
    st = [t for t in tr if t.endswith('error : : Error')]
    if bool(st) == bool(s.no_std): B('C17', 'std Error impl: %s with no_std = %s' % (st, s.no_std))
    if [t for t in tr if t not in st] != et: B('C17' + (' C18' if len(tr) - len(st) == len(et) else ''), 'impls %s, expected %s' % (tr, et))

KW = {'self', 'Self'}
def check_root(s, r, B, rt):
    """every path into the library starts with the crate root"""
    # only inputs without user paths into std/core
    user = ' '.join([norm(f.ty) for f in s.fields] + [norm(f.field_ty or '') for f in s.fields] + [norm(f.default or '') + norm(f.field_build or '') for f in s.fields] + [norm(s.default or '')] + [norm(a) for f in s.fields for a in f.attrs] + [norm(a) for a in s.attrs] + [norm(g[0]) for g in s.generics] + [norm(w) for w in s.where])
    t = out(r['tokens']).split(' ')
    R = rt.split(' ')
    for i, x in enumerate(t):
        if x in ('export', 'UninitializedFieldError') and t[i-2:i] == [':', ':']:
            if t[i-2-len(R):i-2] != R: B('C18', 'path not through the crate root: %s' % ' '.join(t[max(0, i-8):i+6])); return
        if x in ('export', 'UninitializedFieldError') and t[i-2:i] != [':', ':'] and x not in user and not (x == 'UninitializedFieldError'):
            B('C18', 'path not through the crate root: %s' % ' '.join(t[max(0, i-8):i+6])); return
        if x == 'derive_builder' and rt != ': : derive_builder': B('C18', 'default crate root in spite of `crate`: %s' % ' '.join(t[max(0, i-5):i+8])); return
        if x in ('core', 'std', 'alloc') and t[i+1:i+3] == [':', ':'] and not sub(x, user) and not sub(x, rt):
            if t[i-3:i] == ['export', ':', ':']: continue
            if t[i+3:i+5] == ['compile_error', '!']: continue
            if t[i:i+7] == ['std', ':', ':', 'error', ':', ':', 'Error']: continue
            B('C18', 'path outside the crate root: %s' % ' '.join(t[max(0, i-5):i+8])); return
