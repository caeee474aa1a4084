"""Parser for rustc's textual MIR (`--emit=mir`), restricted to what rustc prints; anything not
understood raises Unsupported when (and only when) it is executed."""
import re

class Unsupported(Exception):
    pass

OPEN = '([{<'
CLOSE = ')]}>'

def split_top(s, sep=','):
    """split s at top-level separators, honouring brackets, strings and `->`"""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    while i < n:
        ch = s[i]
        if ch == '"':
            j = skip_str(s, i)
            cur.append(s[i:j]); i = j; continue
        if ch == "'" and i + 2 < n and (s[i+2] == "'" or s[i+1] == '\\'):
            j = s.index("'", i + 2) + 1
            cur.append(s[i:j]); i = j; continue
        if ch == '-' and i + 1 < n and s[i+1] == '>':
            cur.append('->'); i += 2; continue
        if ch == '=' and i + 1 < n and s[i+1] == '>':
            cur.append('=>'); i += 2; continue
        if ch in OPEN: depth += 1
        elif ch in CLOSE: depth -= 1
        if depth == 0 and ch == sep:
            out.append(''.join(cur).strip()); cur = []
        else:
            cur.append(ch)
        i += 1
    last = ''.join(cur).strip()
    if last: out.append(last)
    return out

def skip_str(s, i):
    assert s[i] == '"'
    i += 1
    while s[i] != '"':
        i += 2 if s[i] == '\\' else 1
    return i + 1

def match_close(s, i):
    """index just past the bracket matching the one at i"""
    depth, n = 0, len(s)
    while i < n:
        ch = s[i]
        if ch == '"':
            i = skip_str(s, i); continue
        if ch == "'" and i + 2 < n and (s[i+2] == "'" or s[i+1] == '\\'):
            i = s.index("'", i + 2) + 1; continue
        if ch == '-' and i + 1 < n and s[i+1] == '>':
            i += 2; continue
        if ch in OPEN: depth += 1
        elif ch in CLOSE:
            depth -= 1
            if depth == 0: return i + 1
        i += 1
    raise Unsupported('unbalanced: ' + s[:200])

_id = r'[A-Za-z_][A-Za-z0-9_]*'
def norm_ty(s):
    s = s.strip()
    if s.startswith('{closure@') or '{closure@' in s and s.lstrip('&mut ').startswith('{closure@'):
        return s
    s = re.sub(r"'(?:_|[a-z]\w*)\b,? ?", '', s)
    s = s.replace('darling::Error', 'DarlingError').replace('syn::Error', 'SynError').replace('std::fmt::Error', 'FmtError')
    s = re.sub(r'(?:%s::)+(?=%s)' % (_id, _id), '', s)
    s = re.sub(r'(?<![\w>\s])(\s*)::\s*(?=%s)' % _id, r'\1', s)      # a leading `::`
    s = s.replace('::<', '<').replace('<>', '')
    s = re.sub(r'for <.*?> ', '', s)
    return s

def strip_refs(t):
    t = t.strip()
    while True:
        if t.startswith('&'):
            t = t[1:].strip()
            if t.startswith('mut '): t = t[4:].strip()
        elif t.startswith('*const ') : t = t[7:].strip()
        elif t.startswith('*mut '): t = t[5:].strip()
        else: return t

def base_ty(t):
    t = strip_refs(norm_ty(t))
    m = re.match(r'(?:dyn |impl )?(%s)' % _id, t)
    return m.group(1) if m else t

def ty_args(t):
    t = strip_refs(norm_ty(t))
    i = t.find('<')
    if i < 0: return []
    j = match_close(t, i)
    return split_top(t[i+1:j-1])

# ---------------------------------------------------------------- places / operands / rvalues

class P:  # cursor
    def __init__(self, s): self.s, self.i = s, 0

def parse_place(s):
    """returns (local, [projections])"""
    c = P(s)
    r = _place(c)
    if c.i != len(s): raise Unsupported('place: ' + s)
    return r

def _place(c):
    s = c.s
    if s[c.i] == '(':
        c.i += 1
        if s[c.i] == '*':
            c.i += 1
            l, pr = _place(c)
            if s[c.i] != ')': raise Unsupported('place: ' + s)
            c.i += 1
            res = (l, pr + [('deref',)])
        else:
            l, pr = _place(c)
            if s.startswith(' as ', c.i):
                j = s.index(')', c.i)
                v = s[c.i+4:j]; c.i = j + 1
                res = (l, pr + [('variant', v)])
            elif s[c.i] == '.':
                m = re.match(r'\.(\d+): ', s[c.i:])
                if not m: raise Unsupported('place: ' + s)
                c.i += m.end()
                # type up to the matching ')'
                depth, k = 0, c.i
                while True:
                    ch = s[k]
                    if ch == '-' and s[k+1] == '>': k += 2; continue
                    if ch in OPEN: depth += 1
                    elif ch in CLOSE:
                        if depth == 0: break
                        depth -= 1
                    k += 1
                ty = s[c.i:k]; c.i = k + 1
                res = (l, pr + [('field', int(m.group(1)), norm_ty(ty))])
            else:
                raise Unsupported('place: ' + s)
    else:
        m = re.match(r'_(\d+)', s[c.i:])
        if not m: raise Unsupported('place: ' + s)
        c.i += m.end()
        res = (int(m.group(1)), [])
    while c.i < len(s) and s[c.i] == '[':
        j = match_close(s, c.i)
        res = (res[0], res[1] + [('index', s[c.i+1:j-1])]); c.i = j
    return res

def parse_operand(s):
    s = s.strip()
    if s.startswith('copy '): return ('place', parse_place(s[5:]))
    if s.startswith('move '): return ('place', parse_place(s[5:]))
    if s.startswith('const '): return ('const', s[6:])
    return ('fnitem', s)

BINOPS = {'Eq','Ne','Lt','Le','Gt','Ge','Add','Sub','Mul','Div','Rem','BitAnd','BitOr','BitXor','Shl','Shr','Offset','Cmp',
          'AddWithOverflow','SubWithOverflow','MulWithOverflow','AddUnchecked','SubUnchecked'}
UNOPS = {'Not','Neg','PtrMetadata'}

def parse_rvalue(s):
    s = re.sub(r'^(&(?:raw const )?)(?:\(fake\)|fake)(?: shallow| deep)? ', r'\1', s.strip())
    if s.startswith('&raw const '): return ('ref', parse_place(s[11:]))
    if s.startswith('&raw mut '): return ('ref', parse_place(s[9:]))
    if s.startswith('&mut '): return ('ref', parse_place(s[5:]))
    if s.startswith('&'): return ('ref', parse_place(s[1:]))
    if s.startswith('deref_copy '): return ('use', ('place', parse_place(s[11:])))
    if s.startswith('discriminant('): return ('disc', parse_place(s[13:-1]))
    if s.startswith('Len('): return ('len', parse_place(s[4:-1]))
    m = re.match(r'(\w+)\(', s)
    if m and s.endswith(')'):
        op = m.group(1)
        if op in BINOPS:
            a, b = split_top(s[len(op)+1:-1]); return ('bin', op, parse_operand(a), parse_operand(b))
        if op in UNOPS: return ('un', op, parse_operand(s[len(op)+1:-1]))
        if op in ('SizeOf', 'AlignOf'): return ('opaque', s)
        if op == 'ShallowInitBox':
            a = split_top(s[len(op)+1:-1])[0]; return ('use', parse_operand(a))
        if op == 'CopyForDeref': return ('use', ('place', parse_place(s[len(op)+1:-1])))
    if re.match(r'(copy|move|const) ', s):
        # possibly a cast
        m = re.match(r'^((?:copy|move) .*|const .*) as (.*) \((PointerCoercion\(.*\)|PtrToPtr|Transmute|IntToInt|PointerExposeProvenance|FnPtrToPtr|PointerWithExposedProvenance)\)$', s)
        if m:
            return ('cast', parse_operand(m.group(1)), norm_ty(m.group(2)), m.group(3))
        return ('use', parse_operand(s))
    m = re.match(r'^(.*) as (.*) \((PointerCoercion\(.*\)|PtrToPtr|Transmute)\)$', s)
    if m and not s.startswith('('):
        return ('cast', ('fnitem', m.group(1)), norm_ty(m.group(2)), m.group(3))
    if s.startswith('('):
        return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('['):
        parts = split_top(s[1:-1], ';')
        if len(parts) == 2: return ('repeat', parse_operand(parts[0]), parts[1])
        return ('array', [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('{closure@') or s.startswith('{coroutine@'):
        j = match_close(s, 0)
        ident = s[:j]; rest = s[j:].strip()
        fs = []
        if rest.startswith('{'):
            fs = [parse_operand(x.split(': ', 1)[1]) for x in split_top(rest[1:-1])]
        return ('closure', ident, fs)
    # aggregates: Path { a: op, .. } | Path(ops) | Path
    j = s.find(' { ')
    if j > 0 and s.endswith('}'):
        head = s[:j]
        fs = [tuple(x.split(': ', 1)) for x in split_top(s[j+3:-1])]
        return ('agg', head, [(n, parse_operand(o)) for n, o in fs], 'struct')
    if s.endswith(' {}') : return ('agg', s[:-3], [], 'struct')
    if s.endswith(')'):
        # find the paren group ending the string
        depth, k = 0, len(s) - 1
        k = find_args_open(s)
        return ('agg', s[:k], [(str(i), parse_operand(x)) for i, x in enumerate(split_top(s[k+1:-1]))], 'tuple')
    if re.match(r'^[\w:<>\'_, &\[\]();*{}@./-]+$', s): return ('agg', s, [], 'unit')
    raise Unsupported('rvalue: ' + s)

def find_args_open(s):
    """index of the '(' matching the final ')' of s"""
    # forward scan keeping a stack
    st, i, n = [], 0, len(s)
    res = -1
    while i < n:
        ch = s[i]
        if ch == '"': i = skip_str(s, i); continue
        if ch == "'" and i + 2 < n and (s[i+2] == "'" or s[i+1] == '\\'):
            i = s.index("'", i + 2) + 1; continue
        if ch == '-' and i + 1 < n and s[i+1] == '>': i += 2; continue
        if ch in OPEN: st.append(i)
        elif ch in CLOSE: res = st.pop()
        i += 1
    return res

# ---------------------------------------------------------------- functions

class Block:
    __slots__ = ('stmts', 'term', 'cleanup')

class Fn:
    def __init__(self, name, header, kind, lines, lineno):
        self.name, self.header, self.kind, self.lines, self.lineno = name, header, kind, lines, lineno
        self._parsed = False
        self.args = []      # [(idx, type)]
        self.ret = None
        self.impl = None    # filled by the program index: (type, trait)
        m = None
        if kind == 'fn':
            k = header.index('(_1') if '(_1' in header else header.index('()')
            e = match_close(header, k)
            for a in split_top(header[k+1:e-1]):
                n, t = a.split(': ', 1)
                self.args.append((int(n[1:]), t))
            r = header[e:].strip()
            self.ret = r[2:].strip().rstrip('{').strip() if r.startswith('->') else '()'
        else:
            self.ret = None

    def parse(self):
        if self._parsed: return
        self._parsed = True
        self.locals = {i: t for i, t in self.args}
        self.blocks = {}
        cur = None
        for ln in self.lines:
            t = ln.strip()
            if cur is None:
                m = re.match(r'^let (?:mut )?_(\d+): (.*);$', t)
                if m: self.locals[int(m.group(1))] = m.group(2); continue
                m = re.match(r'^bb(\d+)( \(cleanup\))?: \{$', t)
                if m:
                    cur = int(m.group(1)); b = Block(); b.stmts = []; b.term = None; b.cleanup = bool(m.group(2))
                    self.blocks[cur] = b
                continue
            if t == '}':
                cur = None; continue
            if not t: continue
            b = self.blocks[cur]
            if b.cleanup: continue
            self._stmt(b, t)
        # zero-sized values (a closure that captures nothing, a function item) are never written
        written = {s[1][0] for b in self.blocks.values() for s in b.stmts if s[0] in ('assign', 'setdisc')} | {b.term[1][0] for b in self.blocks.values() if b.term and b.term[0] == 'call'}
        self.unwritten = {i: t for i, t in self.locals.items() if i and i not in written and i > len(self.args) and (t.startswith('{closure@') or re.match(r'^(?:unsafe )?(?:for<[^>]*> )?fn\(.*\{.*\}$', t))}
        # back edges -> loop headers
        self._loops()

    def _stmt(self, b, t):
        if t.startswith(('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'PlaceMention', 'ConstEvalCounter', 'Coverage', 'AscribeUserType', 'Retag', 'debug ', 'BackwardIncompatibleDropHint')):
            return
        t = t.rstrip(';')
        if t.startswith('goto -> '): b.term = ('goto', int(t[10:])); return
        if t == 'return': b.term = ('return',); return
        if t in ('unreachable',): b.term = ('unreachable',); return
        if t.startswith('resume') or t.startswith('terminate'): b.term = ('resume',); return
        if t.startswith('switchInt('):
            j = match_close(t, 9)
            op = parse_operand(t[10:j-1])
            rest = t[j:].strip()[2:].strip()[1:-1]
            tg = []
            for x in split_top(rest):
                k, v = x.split(': ')
                tg.append((k if k == 'otherwise' else int(k), int(v[2:])))
            b.term = ('switch', op, tg); return
        if t.startswith('drop('):
            m = re.search(r'return: bb(\d+)', t); l = re.match(r'drop\(_(\d+)\)', t)
            b.term = ('goto', int(m.group(1))) + ((int(l.group(1)),) if l else ()); return
        if t.startswith('assert('):
            j = match_close(t, 6)
            parts = split_top(t[7:j-1])
            m = re.search(r'success: bb(\d+)', t[j:])
            c = parts[0]; neg = c.startswith('!')
            if neg: c = c[1:]
            b.term = ('assert', parse_operand(c), not neg, parts[1], int(m.group(1))); return
        if t.startswith(('falseEdge', 'falseUnwind')):
            m = re.search(r'(?:real|imaginary)?: ?bb(\d+)|-> bb(\d+)', t); raise Unsupported(t)
        m = re.search(r' -> (\[return: bb(\d+), unwind[^\]]*\]|unwind .*|bb\d+)$', t)
        eq = find_assign(t)
        if eq is None: raise Unsupported('stmt: ' + t)
        lhs, rhs = t[:eq].strip(), t[eq+3:].strip()
        if m and not rhs.startswith(('copy ', 'const ')):
            call = rhs[:rhs.rindex(m.group(0))] if m.group(0) in rhs else rhs
            k = find_args_open(call)
            callee, args = call[:k], [parse_operand(x) for x in split_top(call[k+1:-1])]
            tgt = int(m.group(2)) if m.group(2) else None
            b.term = ('call', parse_place(lhs), callee, args, tgt); return
        if lhs.startswith('discriminant('):
            b.stmts.append(('setdisc', parse_place(lhs[13:-1]), rhs)); return
        try:
            b.stmts.append(('assign', parse_place(lhs), parse_rvalue(rhs)))
        except Unsupported as e:
            b.stmts.append(('unsupported', str(e)))

    def _loops(self):
        self.headers = {}
        if 0 not in self.blocks: return
        def succ(i):
            t = self.blocks[i].term
            if t is None: return []
            if t[0] == 'goto': return [t[1]]
            if t[0] == 'switch': return [x[1] for x in t[2]]
            if t[0] == 'assert': return [t[4]]
            if t[0] == 'call': return [t[4]] if t[4] is not None else []
            return []
        color, stack = {}, [(0, iter(succ(0)))]
        color[0] = 1
        order = []
        back = []
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in color:
                    color[s] = 1; stack.append((s, iter(succ(s)))); break
                elif color[s] == 1: back.append((n, s))
            else:
                color[n] = 2; stack.pop()
        preds = {}
        for i in self.blocks:
            if self.blocks[i].cleanup: continue
            for s in succ(i): preds.setdefault(s, []).append(i)
        for a, h in back:
            body = self.headers.setdefault(h, {h})
            work = [a]
            while work:
                x = work.pop()
                if x in body: continue
                body.add(x)
                work.extend(p for p in preds.get(x, []) if p in color)

def find_assign(t):
    """position of the top-level ' = '"""
    depth, i, n = 0, 0, len(t)
    while i < n:
        ch = t[i]
        if ch == '"': i = skip_str(t, i); continue
        if ch == '-' and i + 1 < n and t[i+1] == '>': i += 2; continue
        if ch in '([{': depth += 1
        elif ch in ')]}': depth -= 1
        if depth == 0 and t.startswith(' = ', i): return i
        i += 1
    return None

def load(path):
    fns = []
    cur = None
    with open(path) as f:
        for no, ln in enumerate(f, 1):
            if cur is None:
                m = re.match(r'^(fn|const|static)(?: mut)? (.*)$', ln.rstrip('\n'))
                if m and ln.rstrip().endswith('{'):
                    kind, h = m.group(1), m.group(2)
                    if kind == 'fn':
                        k = h.index('(_1') if '(_1' in h else h.index('()')
                        name = h[:k]
                    else:
                        # name: up to ': ' before type at top level, after the last '>' of impl part
                        body = h[:-1].rstrip()
                        if body.endswith('='): body = body[:-1].rstrip()
                        depth = 0; pos = None; i = 0
                        while i < len(body):
                            ch = body[i]
                            if ch in '<{([': depth += 1
                            elif ch in '>})]' and not (ch == '>' and body[i-1] == '-'): depth -= 1
                            elif depth == 0 and body.startswith(': ', i): pos = i; break
                            i += 1
                        name = body[:pos] if pos else body
                    cur = (name, h, kind, [], no)
            else:
                if ln.startswith('}'):
                    fns.append(Fn(*cur)); cur = None
                else:
                    cur[3].append(ln)
    return fns
