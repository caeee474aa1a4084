"""Symbolic executor / VC generator for MIR."""
import re, sys
from values import *
import mirparse
from canon import canon
from mirparse import Unsupported, parse_operand, parse_place, norm_ty, base_ty, ty_args, match_close, split_top, strip_refs, find_args_open

sys.setrecursionlimit(20000)

class Fork(Exception):
    """the current statement needs a case split: list of guards (tuples of literals)"""
    def __init__(self, alts): self.alts = alts

class NeedFold(Exception):
    def __init__(self, loop, loc): self.loop, self.loc = loop, loc

class Budget(Exception):
    pass

class Diverge(Exception):
    """the statement panics"""
    def __init__(self, msg): self.msg = msg

BUILTIN_ENUMS = {'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'Cow': ['Borrowed', 'Owned'],
                 'ControlFlow': ['Continue', 'Break'], 'bool': [False, True],
                 'Pair': ['Punctuated', 'End'], 'Delimiter': ['Parenthesis', 'Brace', 'Bracket', 'None'],
                 'Ordering': ['Less', 'Equal', 'Greater']}

class Ctx:
    """program + names"""
    def __init__(self, fns, src):
        self.src = src
        self.fns = fns
        self.by_key = {}      # (type, method) -> [fn]
        self.free = {}        # name -> fn
        self.closures = {}    # '{closure@..}' -> fn
        self.consts = {}
        self.derived = {}     # (type, method) -> fn
        for f in fns:
            if f.kind != 'fn':
                self.consts[f.name] = f; continue
            last = f.name
            if f.args and '{closure@' in f.args[0][1] and re.search(r'\{closure#\d+\}$', f.name):
                m = re.search(r'\{closure@[^}]*\}', f.args[0][1])
                self.closures[m.group(0)] = f; continue
            ms = list(re.finditer(r'<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>', f.name))
            if ms:
                m = ms[-1]
                tail = f.name[m.end():]
                if tail.startswith('::') and '::' not in tail[2:]:
                    ty, tr = src.impl_info(m.group(1), *map(int, m.groups()[1:]))
                    f.impl = (ty, tr, tail[2:])
                    if tr in ('FromMeta', 'FromField', 'FromDeriveInput') and src.derived(m.group(1), int(m.group(2)), int(m.group(3))):
                        self.derived[(ty, tail[2:])] = f        # generated by darling's derive: verified in parsers.py, opaque to callers
                        continue
                    self.by_key.setdefault((ty, tail[2:]), []).append(f)
                    continue
                elif tail.startswith('::'):
                    # fn nested in a method
                    self.free.setdefault(f.name, f)
                    self.free.setdefault(tail.split('::')[-1], f)
                    continue
            self.free.setdefault(f.name, f)
            self.free.setdefault(f.name.split('::')[-1], f) if '{' not in f.name else None
        self.enum_cache = {}

    def variants(self, en):
        if en in BUILTIN_ENUMS: return BUILTIN_ENUMS[en]
        return self.src.enums.get(en)

    def fields(self, name, variant=None):
        if variant is not None: return self.src.variants.get((name, variant))
        return self.src.structs.get(name)

    def field_name(self, ty, variant, i):
        fs = self.fields(base_ty(ty), variant)
        n = str(i)
        if fs and i < len(fs): n = fs[i][0]
        return (variant + '.' + n) if variant is not None else n

    def method(self, ty, m, trait=None):
        c = self.by_key.get((ty, m))
        if not c: return None
        if len(c) == 1:
            if trait is None or c[0].impl[1] is None or base_ty(c[0].impl[1]) == base_ty(trait): return c[0]
            return None
        if trait is not None:
            t = norm_ty(trait)
            ex = [f for f in c if f.impl[1] and norm_ty(f.impl[1]) == t]
            if len(ex) == 1: return ex[0]
            ex = [f for f in c if f.impl[1] and base_ty(f.impl[1]) == base_ty(t)]
            if len(ex) == 1: return ex[0]
            ex2 = [f for f in ex if ty_args(f.impl[1]) and ty_args(t) and base_ty(ty_args(f.impl[1])[0]) == base_ty(ty_args(t)[0])]
            if len(ex2) == 1: return ex2[0]
            if ex: raise Unsupported('ambiguous impl %s::%s %s' % (ty, m, trait))
            return None
        ex = [f for f in c if f.impl[1] is None]
        if len(ex) == 1: return ex[0]
        raise Unsupported('ambiguous method %s::%s' % (ty, m))

# ------------------------------------------------------------------ path conditions

def enum_dom(ctx, atom):
    if atom[0] == 'disc': return ctx.variants(atom[2])
    if atom[0] == 'str': return None
    if atom[0] == 'int': return None
    return (False, True)

def add_lit(ctx, pc, l):
    """pc is a dict (mutated); returns False on contradiction"""
    a, op, x = l
    cur = pc.get(a)
    if op == '=':
        if a[0] == 'int' and isinstance(a[1], tuple) and a[1][0] == 'len' and isinstance(a[1][1], Seq) and sum(e[0] == 'e' for e in a[1][1].segs) > x: return False     # elements it is known to have
        if cur is None: pc[a] = ('=', x); return True
        if cur[0] == '=': return cur[1] == x
        if x in cur[1]: return False
        pc[a] = ('=', x); return True
    else:
        s = frozenset(x)
        if cur is not None and cur[0] == '=': return cur[1] not in s
        if cur is not None: s = s | cur[1]
        dom = enum_dom(ctx, a)
        if dom is not None:
            rest = [d for d in dom if d not in s]
            if not rest: return False
            if len(rest) == 1: pc[a] = ('=', rest[0]); return True
        pc[a] = ('!=', s); return True

def lits_of(pc, base):
    """literals of pc not already in base"""
    out = []
    for a, (op, x) in pc.items():
        if base.get(a) == (op, x): continue
        out.append((a, op, x))
    return tuple(sorted(out, key=repr))

def consistent(ctx, pc, guards):
    p = dict(pc)
    return all(add_lit(ctx, p, l) for l in guards)

class State:
    __slots__ = ('heap', 'pc')
    def __init__(self, heap, pc): self.heap, self.pc = heap, pc
    def fork(self): return State(dict(self.heap), dict(self.pc))

# ------------------------------------------------------------------ calls

def callee_info(c):
    """-> dict(kind, ty, trait, m, gen, raw)"""
    s = c.strip()
    if s.startswith('<'):
        j = match_close(s, 0)
        inner = s[1:j-1]
        # top-level ' as '
        depth = 0; pos = None; i = 0
        while i < len(inner):
            ch = inner[i]
            if ch == '-' and inner[i+1:i+2] == '>': i += 2; continue
            if ch in '<([{': depth += 1
            elif ch in '>)]}': depth -= 1
            elif depth == 0 and inner.startswith(' as ', i): pos = i; break
            i += 1
        rest = s[j:]
        rest = rest[2:] if rest.startswith('::') else rest
        gen = ''
        if '::<' in rest:
            k = rest.index('::<'); gen = rest[k+2:]; rest = rest[:k]
        if pos is None:
            return dict(kind='path', ty=norm_ty(inner), trait=None, m=rest, gen=gen, raw=c)
        return dict(kind='trait', ty=norm_ty(inner[:pos]), trait=norm_ty(inner[pos+4:]), m=rest, gen=gen, raw=c)
    segs, cur, depth, i = [], '', 0, 0
    while i < len(s):
        ch = s[i]
        if ch == '-' and s[i+1:i+2] == '>': cur += '->'; i += 2; continue
        if ch in '<([{': depth += 1
        elif ch in '>)]}': depth -= 1
        if depth == 0 and s.startswith('::', i):
            segs.append(cur); cur = ''; i += 2; continue
        cur += ch; i += 1
    segs.append(cur)
    gen = ''
    tgen = ''
    if segs[-1].startswith('<') and not segs[-1].startswith('<impl'):
        gen = segs.pop()
    m = segs[-1]
    ty = None
    if len(segs) > 1:
        t = segs[-2]
        if t.startswith('<impl'):
            ty = norm_ty(t[5:-1].strip())
        elif t.startswith('<'):
            tgen = t
            ty = norm_ty((segs[-3] if len(segs) > 2 else '') + t)
        else: ty = t
    return dict(kind='path', ty=ty, trait=None, m=m, gen=gen, raw=c)

class Ex:
    def __init__(self, ctx, lib, budget=3000000):
        self.ctx, self.lib = ctx, lib
        self.fid = 0
        self.cell = 0
        self.loops = []
        self.folding = []
        self.fnstack = []
        self.active = {}        # contract key -> contract used at call sites
        self.current = None
        self.touched = set()    # repo functions whose bodies were executed
        self.assumed = set()    # library contracts used
        self.used_contracts = set()
        self.steps = 0
        self.budget = budget
        self.const_cache = {}
        self.ci_cache = {}
        self.depth = 0
        self.requires_fail = []
        self.axioms = []        # (path condition, atom, guards): under the condition, the atom implies one of the guards

    # ---------------- memory
    def new_cell(self, st, v):
        self.cell += 1
        c = ('c', self.cell)
        st.heap[c] = v
        return Ref(c, ())

    def resolve(self, st, v):
        """resolve Cases under the path condition (may raise Fork)"""
        while isinstance(v, Cases):
            live = [(g, x) for g, x in v.cs if consistent(self.ctx, st.pc, g)]
            if len(live) == 1: v = live[0][1]
            elif not live: raise Unsupported('no live case')
            else:
                x0 = live[0][1]
                if all(x == x0 for _, x in live): v = x0
                else: raise Fork([g for g, _ in live])
        return v

    def proj(self, st, v, p):
        kind = p[0]
        if isinstance(v, Cases):
            live = [(g, x) for g, x in v.cs if consistent(self.ctx, st.pc, g)]
            if len(live) == 1: return self.proj(st, live[0][1], p)
            if p[3] is None:
                r = [(g, self.proj(st, x, p)) for g, x in live]
                if all(x == r[0][1] for _, x in r): return r[0][1]
                return Cases(tuple(r))
            raise Fork([g for g, _ in live])
        if kind == 'f':
            _, i, ty, var = p
            if isinstance(v, Adt):
                if var is not None and v.v != var: raise Unsupported('variant mismatch %s vs %s' % (show(v), var))
                if i >= len(v.fs):
                    raise Unsupported('field %d of %s' % (i, show(v)))
                return v.fs[i]
            if isinstance(v, Sym):
                if base_ty(ty) in ('Unique', 'NonNull') : return v
                if base_ty(ty) == 'Box' and ty_args(ty): ty = ty_args(ty)[0]     # a box is what it holds
                return Sym(('f', v.t, self.ctx.field_name(v.ty, var, i)), ty)
            if isinstance(v, Ref):
                if base_ty(ty) in ('Unique', 'NonNull', 'RawVec') or ty.startswith('*'): return v     # Box internals
                # a value standing for a reference to itself was one level up
                return self.proj(st, self.resolve(st, self.read_loc(st, (v.cell, v.path))), p)
            if isinstance(v, Poison): raise Unsupported('poison: ' + v.why)
            h = self.lib.project(self, st, v, i, ty, var)
            if h is not None: return h
            raise Unsupported('field of %s' % show(v))
        if kind == 'index':
            v = self.resolve(st, v)
            m = re.match(r'^(?:const )?(-?\d+) of \d+$', p[1])
            if m:
                k = int(m.group(1))
                if isinstance(v, Sym): v = Seq(self.lib.segs(self, st, v))
                if k < 0 and isinstance(v, Seq):
                    if all(s[0] == 'e' for s in v.segs[k:]) and len(v.segs) >= -k: return v.segs[k][1]
                    raise Unsupported('index %s' % (p,))
                if isinstance(v, Seq):
                    if all(s[0] == 'e' for s in v.segs[:k+1]): return v.segs[k][1]
                if isinstance(v, Adt): return v.fs[k]
            raise Unsupported('index %s' % (p,))
        raise Unsupported('proj %s' % (p,))

    def read_loc(self, st, loc):
        cell, path = loc
        if cell not in st.heap:
            if cell[0] == 'ext': st.heap[cell] = cell[2]
            else: raise Unsupported('uninitialised %s' % (cell,))
        v = st.heap[cell]
        for p in path: v = self.proj(st, v, p)
        return v

    def write_loc(self, st, loc, val):
        cell, path = loc
        if not path: st.heap[cell] = val; return
        if cell not in st.heap:
            if cell[0] == 'ext': st.heap[cell] = cell[2]
            else:
                # field-wise initialisation of an aggregate
                raise Unsupported('write into uninitialised')
        st.heap[cell] = self.upd(st, st.heap[cell], path, val)

    def expand(self, st, v, var=None):
        if isinstance(v, Adt): return v
        if isinstance(v, Sym):
            fs = self.ctx.fields(base_ty(v.ty), var)
            if fs is None and base_ty(v.ty) == 'Option' and var == 'Some' and ty_args(v.ty): fs = [('0', ty_args(v.ty)[0])]
            if fs is None: raise Unsupported('cannot expand %s: %s' % (show(v), v.ty))
            return Adt(base_ty(v.ty), var, tuple(Sym(('f', v.t, (var + '.' if var else '') + n), t) for n, t in fs))
        raise Unsupported('expand %s' % show(v))

    def upd(self, st, v, path, val):
        if not path: return val
        p = path[0]
        if p[0] != 'f': raise Unsupported('write through %s' % (p,))
        v = self.resolve(st, v)
        v = self.expand(st, v, p[3])
        fs = list(v.fs)
        fs[p[1]] = self.upd(st, fs[p[1]], path[1:], val)
        return Adt(v.n, v.v, tuple(fs))

    def loc(self, st, fid, place, write=False):
        """place -> (cell, path)"""
        local, pr = place
        cell, path = (fid, local), ()
        i = 0
        while i < len(pr):
            p = pr[i]
            if p[0] == 'deref':
                v = self.read_loc(st, (cell, path))
                v = self.resolve(st, v)
                if isinstance(v, Ref): cell, path = v.cell, v.path
                elif isinstance(v, Sym):
                    cell, path = ('ext', v.t, Sym(v.t, strip1(v.ty))), ()
                elif isinstance(v, Poison): raise Unsupported('poison: ' + v.why)
                else:
                    if write: raise Unsupported('write through erased reference')
                    # value stands for its own referent
                    rest = [q for q in pr[i+1:]]
                    pass
            elif p[0] == 'variant':
                if i + 1 < len(pr) and pr[i+1][0] == 'field':
                    q = pr[i+1]
                    path = path + (('f', q[1], q[2], p[1]),); i += 1
                else: pass
            elif p[0] == 'field':
                # box internals: Ref.0.0 is the pointer
                path = path + (('f', p[1], p[2], None),)
            elif p[0] == 'index':
                idx = p[1]
                if re.match(r'^_\d+$', idx):
                    iv = self.resolve(st, self.read_loc(st, ((fid, int(idx[1:])), ())))
                    if not isinstance(iv, int): raise Unsupported('symbolic index')
                    idx = '%d of 0' % iv
                path = path + (('index', idx, None, None),)
            i += 1
        return cell, path

    def read_place(self, st, fid, place):
        return self.read_loc(st, self.loc(st, fid, place))

    # ---------------- views
    def view(self, st, v, d=0):
        """erase references, boxes and Cow"""
        if d > 60: raise Unsupported('deep view')
        if isinstance(v, Ref): return self.view(st, self.read_loc(st, (v.cell, v.path)), d + 1)
        if isinstance(v, Sym) or isinstance(v, (bool, int)) or v is None: return v
        if isinstance(v, Adt):
            if v.n == 'Cow' and len(v.fs) == 1: return self.view(st, v.fs[0], d + 1)
            if not v.fs: return v
            if v.n == 'RepInterp': return self.view(st, v.fs[0], d + 1)
            return Adt(v.n, v.v, tuple(self.view(st, x, d + 1) for x in v.fs))
        if isinstance(v, Cases):
            r = [(g, self.view(st, x, d + 1)) for g, x in v.cs if consistent(self.ctx, st.pc, g)]
            if len(r) == 1: return r[0][1]
            if all(x == r[0][1] for _, x in r): return r[0][1]
            return Cases(tuple(r))
        if isinstance(v, Seq): return Seq(tuple(('e', self.view(st, s[1], d + 1)) if s[0] == 'e' else s for s in v.segs))
        if isinstance(v, Iter): return Iter(tuple(('e', self.view(st, s[1], d + 1)) if s[0] == 'e' else s for s in v.segs))
        if isinstance(v, Acc): return Acc(self.view(st, v.errs, d + 1))
        return v

    # ---------------- decisions
    def variant(self, st, v, enum=None):
        """variant name of v under the path condition; Fork if open"""
        v = self.resolve(st, v)
        if isinstance(v, Ref): return self.variant(st, self.read_loc(st, (v.cell, v.path)), enum)
        if isinstance(v, Adt): return v.v
        if isinstance(v, Sym):
            en = enum or base_ty(v.ty)
            k = self.lib.sym_variant(self, st, v, en)
            if k is not None: return k
            vs = self.ctx.variants(en)
            if not vs: raise Unsupported('variants of %s (%s)' % (en, show(v)))
            a = ('disc', v.t, en)
            cur = st.pc.get(a)
            if cur and cur[0] == '=': return cur[1]
            opts = [x for x in vs if not (cur and x in cur[1])]
            raise Fork([((a, '=', x),) for x in opts])
        h = self.lib.variant_of(self, st, v)
        if h is not None: return h
        raise Unsupported('variant of %s' % show(v))

    def truth(self, st, v):
        v = self.resolve(st, v)
        if isinstance(v, bool): return v
        if isinstance(v, int): return bool(v)
        if isinstance(v, Ref): return self.truth(st, self.read_loc(st, (v.cell, v.path)))
        if isinstance(v, Sym):
            t = v.t
            if isinstance(t, tuple) and t and t[0] == 'not': return not self.truth(st, Sym(t[1], 'bool'))
            if isinstance(t, tuple) and t and t[0] == 'and':
                return self.truth(st, Sym(t[1], 'bool')) and self.truth(st, Sym(t[2], 'bool'))
            if isinstance(t, tuple) and t and t[0] == 'or':
                return self.truth(st, Sym(t[1], 'bool')) or self.truth(st, Sym(t[2], 'bool'))
            if isinstance(t, tuple) and t and t[0] == 'streq':
                a = ('str', t[1]); cur = st.pc.get(a)
                if cur and cur[0] == '=': return cur[1] == t[2]
                if cur and t[2] in cur[1]: return False
                raise Fork([((a, '=', t[2]),), ((a, '!=', frozenset([t[2]])),)])
            if isinstance(t, tuple) and t and t[0] == 'inteq':
                a = ('int', t[1]); cur = st.pc.get(a)
                if cur and cur[0] == '=': return cur[1] == t[2]
                if cur and t[2] in cur[1]: return False
                raise Fork([((a, '=', t[2]),), ((a, '!=', frozenset([t[2]])),)])
            cur = st.pc.get(t)
            if cur and cur[0] == '=': return cur[1]
            raise Fork([((t, '=', True),), ((t, '=', False),)])
        raise Unsupported('truth of %s' % show(v))

    # ---------------- operands
    def operand(self, st, fid, op):
        if op[0] == 'place': return self.read_place(st, fid, op[1])
        if op[0] == 'const': return self.const(st, op[1])
        if op[0] == 'fnitem': return FnItem(op[1])
        raise Unsupported(str(op))

    def const(self, st, s):
        s = s.strip()
        if s == 'true': return True
        if s == 'false': return False
        if s == '()': return UNIT
        m = re.match(r'^(-?\d+)_\w+$', s)
        if m: return int(m.group(1))
        if s.startswith('"'): return lit(unescape(s[1:-1]))
        if s.startswith('b"'): raise Unsupported('bytes')
        if s.startswith("'"): return ('chr', unescape(s[1:-1]))
        if s.startswith('ZeroSized: '):
            t = s[11:]
            if t.startswith('{closure@'): return Adt('closure', t, ())
            return FnItem(t)
        if s.startswith('core::fmt::rt::UnsafeArg'): return UNIT
        if s in ('RangeFull', 'std::ops::RangeFull'): return Adt('RangeFull', None, ())
        f = self.ctx.consts.get(s)
        m = re.search(r'::(promoted\[\d+\])$', s)
        if m and self.fnstack: f = self.ctx.consts.get(self.fnstack[-1].name + '::' + m.group(1)) or f
        if f is None:
            # promoted of generics / trimmed module path
            tail = s.split('::')[-1]
            cands = [k for k in self.ctx.consts if k == s or k.endswith('::' + s) or s.endswith('::' + k)]
            if not cands and '::promoted[' in s:
                # `<mod path>::fn::promoted[n]` with trimmed impl
                cands = [k for k in self.ctx.consts if norm_const(k) == norm_const(s)]
            if len(cands) == 1: f = self.ctx.consts[cands[0]]
        if f is not None:
            key = f.name
            if key not in self.const_cache:
                st0 = State({}, {})
                outs = self.run_fn(f, [], st0, count=False)
                if len(outs) != 1 or outs[0][1] != 'ret': raise Unsupported('const ' + s)
                self.const_cache[key] = self.view(outs[0][0], outs[0][2])
            return self.const_cache[key]
        h = self.lib.const(self, s)
        if h is not None: return h
        if re.match(r'^[\w:<>{}@#, \'&\[\]()./-]+$', s):
            return FnItem(s)
        raise Unsupported('const ' + s)

    # ---------------- rvalues
    def rvalue(self, st, fid, rv, dty):
        k = rv[0]
        if k == 'use': return self.operand(st, fid, rv[1])
        if k == 'ref':
            c, p = self.loc(st, fid, rv[1])
            # a reference to an erased-reference value is fine
            return Ref(c, p)
        if k == 'disc':
            return Disc(self.read_place(st, fid, rv[1]))
        if k == 'cast':
            return self.operand(st, fid, rv[1])
        if k == 'tuple': return Adt('tuple', None, tuple(self.operand(st, fid, o) for o in rv[1]))
        if k == 'array': return Seq(tuple(('e', self.operand(st, fid, o)) for o in rv[1]))
        if k == 'closure': return Adt('closure', rv[1], tuple(self.operand(st, fid, o) for o in rv[2]))
        if k == 'agg': return self.agg(st, fid, rv, dty)
        if k == 'un':
            v = self.operand(st, fid, rv[2])
            if rv[1] == 'Not':
                v = self.resolve(st, v)
                if isinstance(v, bool): return not v
                if isinstance(v, Sym): return Sym(v.t[1], 'bool') if v.t[0] == 'not' else Sym(('not', v.t), 'bool')
            if rv[1] == 'PtrMetadata':
                w = self.resolve(st, v)
                if isinstance(w, Ref): w = self.resolve(st, self.read_loc(st, (w.cell, w.path)))
                return self.lib.seq_len(self, st, w)
            raise Unsupported('unop %s' % (rv,))
        if k == 'len':
            return self.lib.seq_len(self, st, self.resolve(st, self.read_place(st, fid, rv[1])))
        if k == 'bin':
            a, b = self.resolve(st, self.operand(st, fid, rv[2])), self.resolve(st, self.operand(st, fid, rv[3]))
            return self.binop(st, rv[1], a, b)
        if k == 'opaque': return Sym(('opaque', rv[1]), 'usize')
        raise Unsupported('rvalue %s' % (rv,))

    def binop(self, st, op, a, b):
        if isinstance(a, Disc) or isinstance(b, Disc):
            def idx(d):
                if not isinstance(d, Disc): return d
                n = self.variant(st, d.v)
                en = self.enum_of(d.v, st)
                vs = self.ctx.variants(en)
                return vs.index(n)
            # same unknown on both sides?
            a, b = idx(a), idx(b)
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            r = {'Eq': lambda: a == b, 'Ne': lambda: a != b, 'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b,
                 'Ge': lambda: a >= b, 'Add': lambda: a + b, 'Sub': lambda: a - b, 'BitAnd': lambda: a & b, 'BitOr': lambda: a | b,
                 'BitXor': lambda: a ^ b, 'Mul': lambda: a * b, 'AddWithOverflow': lambda: Adt('tuple', None, (a + b, False)),
                 'SubWithOverflow': lambda: Adt('tuple', None, (a - b, a < b))}.get(op)
            if r: return r()
        isb = lambda x: isinstance(x, bool) or isinstance(x, Sym) and x.ty == 'bool'
        if op == 'BitAnd' and isb(a) and isb(b): return self.truth(st, a) and self.truth(st, b)
        if op == 'BitOr' and isb(a) and isb(b): return self.truth(st, a) or self.truth(st, b)
        if op in ('Eq', 'Ne') and isb(a) and isb(b): return (self.truth(st, a) == self.truth(st, b)) == (op == 'Eq')
        if op == 'BitXor' and isb(a) and isb(b): return self.truth(st, a) != self.truth(st, b)
        if op in ('AddWithOverflow', 'SubWithOverflow'):
            return Adt('tuple', None, (Sym(('bin', op[:3], tm(a), tm(b)), 'usize'), Sym(('ovf', op[:3], tm(a), tm(b)), 'bool')))
        if op in ('Ge', 'Gt', 'Le', 'Lt', 'Eq', 'Ne', 'Add', 'Sub', 'Mul'):
            neg = {'Ne': 'Eq', 'Ge': 'Lt', 'Gt': 'Le'}
            # canonical: Eq, Lt, Le
            if op in neg:
                r = self.binop(st, neg[op], a, b)
                return (not r) if isinstance(r, bool) else Sym(('not', r.t), 'bool')
            if op in ('Eq', 'Lt', 'Le'):
                h = self.lib.cmp(self, st, op, a, b)
                if h is not None: return h
            return Sym(('bin', op, tm(a), tm(b)), 'bool' if op in ('Eq', 'Lt', 'Le') else 'usize')
        raise Unsupported('binop %s %s %s' % (op, show(a), show(b)))

    def enum_of(self, v, st):
        v = self.resolve(st, v)
        if isinstance(v, Ref): return self.enum_of(self.read_loc(st, (v.cell, v.path)), st)
        if isinstance(v, Sym): return base_ty(v.ty)
        if isinstance(v, Adt): return v.n
        e = self.lib.enum_of(self, st, v)
        if e: return e
        raise Unsupported('enum of %s' % show(v))

    def agg(self, st, fid, rv, dty):
        _, head, fs, shape = rv
        vals = [(n, self.operand(st, fid, o)) for n, o in fs]
        h = norm_ty(head.replace('::<', '<'))
        info = callee_info(head)
        name = info['m']
        tyn = base_ty(info['ty']) if info['ty'] else None
        db = base_ty(dty) if dty else None
        # enum variant?
        for en in (tyn, db):
            if en and self.ctx.variants(en) and name in self.ctx.variants(en) and en != 'bool':
                order = self.ctx.fields(en, name)
                return Adt(en, name, self.order(vals, order, shape))
        sname = base_ty(name if name and not name.startswith('<') else h)
        if shape == 'unit' and not vals:
            return Adt(sname, None, ())
        order = self.ctx.fields(sname)
        if sname == 'Attribute' and shape == 'struct':
            # an outer attribute is what its tokens say; spans are not modelled
            d = dict(vals)
            if set(d) == {'pound_token', 'style', 'bracket_token', 'meta'} and self.variant(st, d['style']) == 'Outer':
                return Adt('Parsed', None, (Toks((('p', '#'), ('g', '[', self.lib.items(self, st, d['meta'])))),))
        return Adt(sname, None, self.order(vals, order, shape))

    def order(self, vals, order, shape):
        if shape == 'struct':
            if order is None: return tuple(v for _, v in vals)
            d = dict(vals)
            return tuple(d[n] for n, _ in order if n in d) if len(d) == len([1 for n, _ in order if n in d]) else tuple(v for _, v in vals)
        return tuple(v for _, v in vals)

    # ---------------- running
    def run_fn(self, fn, args, st, count=True):
        fn.parse()
        if count: self.touched.add(fn.name)
        self.fid += 1
        fid = self.fid
        self.depth += 1
        self.fnstack.append(fn)
        if self.depth > 80: raise Unsupported('recursion too deep in ' + fn.name)
        try:
            for (i, t), v in zip(fn.args, args): st.heap[(fid, i)] = v
            if len(fn.args) != len(args): raise Unsupported('arity of ' + fn.name)
            for i, t in fn.unwritten.items(): st.heap[(fid, i)] = Adt('closure', t, ()) if t[0] == '{' else FnItem(t[t.rindex('{')+1:-1])
            outs = []
            exits, rets = self.region(fn, fid, [(st, 0, 0)], None, None)
            for s, kind, v in rets:
                if fn.kind == 'fn':
                    for i in fn.locals: s.heap.pop((fid, i), None)
                outs.append((s, kind, v))
            return outs
        finally:
            self.depth -= 1
            self.fnstack.pop()

    def region(self, fn, fid, work, header, body):
        """run until leaving `body` (exits: (st, bb)) or returning (rets)"""
        exits, rets = [], []
        work = list(work)
        while work:
            st, bb, si = work.pop()
            if si == 0:
                if header is not None and bb not in body:
                    exits.append((st, bb)); continue
                if bb in fn.headers and (bb != header):
                    e, r = self.loop(fn, fid, st, bb)
                    rets += r
                    for s, b in e:
                        if b == header: exits.append((s, b))
                        else: work.append((s, b, 0))
                    continue
            b = fn.blocks[bb]
            n = len(b.stmts)
            done = False
            while si < n:
                self.steps += 1
                if self.steps > self.budget: raise Budget()
                s = b.stmts[si]
                try:
                    self.stmt(fn, fid, st, s)
                except Fork as f:
                    for g in f.alts:
                        s2 = st.fork()
                        if all(add_lit(self.ctx, s2.pc, l) for l in g): work.append((s2, bb, si))
                    done = True; break
                si += 1
            if done: continue
            self.steps += 1
            try:
                res = self.term(fn, fid, st, b.term)
            except Fork as f:
                for g in f.alts:
                    s2 = st.fork()
                    if all(add_lit(self.ctx, s2.pc, l) for l in g): work.append((s2, bb, si))
                continue
            except Diverge as d:
                rets.append((st, 'panic', d.msg)); continue
            for r in res:
                if r[0] == 'goto':
                    if r[2] == header: exits.append((r[1], header))
                    else: work.append((r[1], r[2], 0))
                else: rets.append((r[1], r[0], r[2]))
        return exits, rets

    def stmt(self, fn, fid, st, s):
        if s[0] == 'assign':
            place, rv = s[1], s[2]
            dty = fn.locals.get(place[0]) if not place[1] else None
            if place[1] and place[1][-1][0] == 'field': dty = place[1][-1][2]
            v = self.rvalue(st, fid, rv, dty)
            if not place[1]: st.heap[(fid, place[0])] = v
            else:
                l = self.loc(st, fid, place, write=True)
                self.write_loc(st, l, v)
        elif s[0] == 'unsupported': raise Unsupported(s[1] + ' in ' + fn.name)
        else: raise Unsupported('stmt %s' % (s,))

    def term(self, fn, fid, st, t):
        k = t[0]
        if k == 'goto':
            if len(t) > 2 and isinstance(st.heap.get((fid, t[2])), Acc): raise Diverge('darling::error::Accumulator dropped without being finished')
            return [('goto', st, t[1])]
        if k == 'return':
            if (fid, 0) not in st.heap:
                z = self.empty_value(fn.locals.get(0) or '')
                if z is not None: return [('ret', st, z)]      # a value without contents is never written
            return [('ret', st, st.heap.get((fid, 0), UNIT))]
        if k == 'switch':
            v = self.resolve(st, self.operand(st, fid, t[1]))
            return self.switch(st, v, t[2])
        if k == 'assert':
            v = self.truth(st, self.operand(st, fid, t[1]))
            if v == t[2]: return [('goto', st, t[4])]
            return [('panic', st, t[3])]
        if k == 'unreachable': return []      # the compiler's own exhaustiveness
        if k == 'call':
            _, dest, callee, args, tgt = t
            vals = [self.operand(st, fid, a) for a in args]
            if re.match(r'^(move|copy) ', callee):
                f = self.resolve(st, self.operand(st, fid, parse_operand(callee)))
                outs = self.call_value(st, f, vals)
            else:
                outs = self.call(st, callee, vals, fn.locals.get(dest[0]) if not dest[1] else None)
            res = []
            for s, kind, v in outs:
                if kind == 'panic': res.append(('panic', s, v)); continue
                if tgt is None: res.append(('panic', s, 'diverging call ' + callee)); continue
                if not dest[1]: s.heap[(fid, dest[0])] = v
                else: self.write_loc(s, self.loc(s, fid, dest, write=True), v)
                res.append(('goto', s, tgt))
            return res
        raise Unsupported('terminator %s in %s' % (t, fn.name))

    def empty_value(self, ty):
        b = base_ty(ty)
        if b == 'PhantomData': return Adt(b, None, ())
        fs = self.ctx.fields(b)
        if fs is None or self.ctx.variants(b): return None
        xs = [self.empty_value(t) for _, t in fs]
        return None if None in xs else Adt(b, None, tuple(xs))

    def switch(self, st, v, tg):
        if isinstance(v, Disc):
            en = self.enum_of(v.v, st)
            vs = self.ctx.variants(en)
            if not vs: raise Unsupported('switch on %s' % en)
            w = self.resolve(st, v.v)
            if isinstance(w, Ref): w = self.resolve(st, self.read_loc(st, (w.cell, w.path)))
            if isinstance(w, Sym) and self.lib.sym_variant(self, st, w, en) is None and ('disc', w.t, en) not in st.pc or \
               isinstance(w, Sym) and self.lib.sym_variant(self, st, w, en) is None and st.pc[('disc', w.t, en)][0] == '!=':
                a = ('disc', w.t, en)
                res, seen = [], []
                for val, bb in tg:
                    if val == 'otherwise':
                        l = (a, '!=', frozenset(seen))
                    else:
                        l = (a, '=', vs[val]); seen.append(vs[val])
                    s2 = st.fork()
                    if add_lit(self.ctx, s2.pc, l): res.append(('goto', s2, bb))
                return res
            n = self.variant(st, v.v)
            i = vs.index(n)
            for val, bb in tg:
                if val == i or val == 'otherwise': return [('goto', st, bb)]
            return []
        if isinstance(v, bool) or isinstance(v, int):
            iv = int(v)
            for val, bb in tg:
                if val == iv or val == 'otherwise': return [('goto', st, bb)]
        if isinstance(v, Sym) and v.ty == 'bool':
            b = self.truth(st, v)
            return self.switch(st, b, tg)
        if isinstance(v, Sym):
            if isinstance(v.t, tuple) and v.t and v.t[0] == 'not':
                return self.switch(st, self.truth(st, v), tg)
            a = ('int', v.t)
            res, seen = [], []
            for val, bb in tg:
                s2 = st.fork()
                l = (a, '!=', frozenset(seen)) if val == 'otherwise' else (a, '=', val)
                seen.append(val)
                if add_lit(self.ctx, s2.pc, l): res.append(('goto', s2, bb))
            return res
        raise Unsupported('switch on %s' % show(v))

    # ---------------- calls
    def call(self, st, callee, vals, dty=None):
        ci = self.ci_cache.get(callee)
        if ci is None: ci = self.ci_cache[callee] = callee_info(callee)
        ci = dict(ci, dty=dty)
        fn = self.find_body(st, ci, vals)
        if fn is not None: return self.call_fn(st, fn, vals)
        return self.lib.call(self, st, ci, vals)

    def find_body(self, st, ci, vals):
        if ci['kind'] == 'trait':
            if ci['m'] == 'to_tokens' : return None       # dynamic dispatch in lib
            return self.ctx.method(base_ty(ci['ty']), ci['m'], ci['trait'])
        if ci['ty'] is not None:
            b = base_ty(ci['ty'])
            f = self.ctx.method(b, ci['m'])
            if f is not None: return f
            if re.match(r'^[a-z_]', ci['ty'] or ''):
                return self.ctx.free.get(ci['raw']) or self.ctx.free.get(ci['m'])
            return None
        return self.ctx.free.get(ci['m'])

    def contract_key(self, fn):
        if fn.impl:
            ty, tr, m = fn.impl
            return ('<%s as %s>::%s' % (ty, tr, m)) if tr else '%s::%s' % (ty, m)
        return fn.name.split('>::')[-1] if '<impl' in fn.name else fn.name

    def call_fn(self, st, fn, vals):
        key = self.contract_key(fn)
        c = self.active.get(key)
        if c is not None:
            self.used_contracts.add(key)
            return c.apply(self, st, vals, fn)
        if key == getattr(self, 'proving', None) and fn in self.fnstack and key in self.contracts:
            self.used_contracts.add(key)
            return self.merge(st, self.contracts[key].recurse(self, st, vals))     # a recursive call: the contract, by induction
        base = st
        outs = self.run_fn(fn, vals, st.fork())
        return self.merge(base, outs)

    def merge(self, base, outs):
        """several outcomes that leave the caller's memory alone become one value"""
        if len(outs) <= 1: return outs
        bh = base.heap
        for s, kind, v in outs:
            if kind != 'ret': return outs
            for c, x in s.heap.items():
                if c in bh:
                    if bh[c] is not x and bh[c] != x: return outs
        # memory reachable from results only: keep it by taking views
        try:
            cs = tuple((lits_of(s.pc, base.pc), self.view(s, v)) for s, _, v in outs)
        except Unsupported:
            return outs
        def has_ref(v):
            return False
        st = base.fork()
        for s, _, _ in outs:
            for c, x in s.heap.items():
                if c[0] == 'ext' and c not in st.heap: st.heap[c] = x
        # group equal values
        if all(v == cs[0][1] for _, v in cs): return [(st, 'ret', cs[0][1])]
        return [(st, 'ret', Cases(cs))]

    def call_value(self, st, f, args):
        """call a closure / fn item; args is the list of arguments"""
        f = self.resolve(st, f)
        if isinstance(f, Ref):
            g = self.resolve(st, self.read_loc(st, (f.cell, f.path)))
            if isinstance(g, Adt) and g.n == 'closure':
                return self._closure(st, g, f, args)
            return self.call_value(st, g, args)
        if isinstance(f, Adt) and f.n == 'closure':
            return self._closure(st, f, None, args)
        if isinstance(f, FnItem):
            return self.call_item(st, f.name, args)
        raise Unsupported('call of %s' % show(f))

    def _closure(self, st, g, ref, args):
        fn = self.ctx.closures.get(g.v)
        if fn is None: raise Unsupported('closure body ' + g.v)
        st = st.fork()
        t0 = fn.args[0][1]
        if t0.startswith('&'):
            a0 = ref if ref is not None else self.new_cell(st, g)
        else: a0 = g
        args = list(args)
        if len(fn.args) != 1 + len(args):
            if len(args) == 1:
                w = self.resolve(st, args[0])
                if isinstance(w, Adt) and w.n == 'tuple' and len(w.fs) == len(fn.args) - 1: args = list(w.fs)
        outs = self.run_fn(fn, [a0] + args, st.fork())
        return self.merge(st, outs)

    def call_item(self, st, name, args):
        n = name.strip()
        if n.startswith('{closure@'): return self._closure(st, Adt('closure', n, ()), None, args)
        m = re.match(r'^(?:for<.*?> )?(?:unsafe )?fn\(.*\{(.*)\}$', n)
        if m: n = m.group(1)
        ci = callee_info(n)
        # a constructor?
        en = base_ty(ci['ty']) if ci['ty'] else None
        if en and self.ctx.variants(en) and ci['m'] in self.ctx.variants(en):
            return [(st, 'ret', Adt(en, ci['m'], tuple(args)))]
        if ci['ty'] is None and self.ctx.fields(ci['m']) is not None and ci['m'][:1].isupper():
            return [(st, 'ret', Adt(ci['m'], None, tuple(args)))]
        return self.call(st, n, args)

    def call1(self, st, f, args):
        """call a function value inside a library contract: one outcome, or Fork on its path guards.
        Returns (state, value); state is st itself when nothing was written."""
        outs = self.call_value(st.fork(), f, args)
        if len(outs) == 1:
            s, k, v = outs[0]
            if k == 'panic': raise Diverge(v)
            d = lits_of(s.pc, st.pc)
            if d: raise Fork([d])  # cannot happen: single outcome adds no literal
            return s, v
        raise Fork([lits_of(s.pc, st.pc) for s, _, _ in outs])

    # ---------------- loops
    def loop(self, fn, fid, st, h):
        body = fn.headers[h]
        pend, exits, rets = [st], [], []
        n = 0
        while pend:
            s = pend.pop()
            n += 1
            if n > 3000: raise Unsupported('loop does not terminate in %s' % fn.name)
            token = object()
            self.loops.append((token, s.heap))
            depth = len(self.loops)
            try:
                e, r = self.region(fn, fid, [(s.fork(), h, 0)] if False else self._enter(fn, fid, s, h), h, body)
            except NeedFold as nf:
                del self.loops[depth-1:]
                if nf.loop is not token: raise
                post, e, r = self.fold(fn, fid, s, h, body, nf.loc)
                pend += post; exits += e; rets += r
                continue
            del self.loops[depth-1:]
            rets += r
            for x, b in e:
                if b == h: pend.append(x)
                else: exits.append((x, b))
        return exits, rets

    def _enter(self, fn, fid, s, h):
        return [(s.fork(), h, 0)]

    def fold(self, fn, fid, s0, h, body, loc):
        """inductive fold over the symbolic segment at the front of the iterator at loc"""
        it = self.read_loc(s0, loc)
        seg = it.segs[0]
        if seg[1] in self.folding: raise Unsupported('nested loops over the same sequence')
        self.folding.append(seg[1])
        try: return self._fold(fn.name, s0, h, loc, it, seg, lambda s: self.region(fn, fid, [(s, h, 0)], h, body))
        finally: self.folding.pop()

    def fold_call(self, st, seg, f, name):
        """the same induction for a function called on every element (for_each)"""
        ref = self.new_cell(st, Iter((seg,)))
        loc = (ref.cell, ref.path)
        def run(s):
            e, r, work = [], [], [s]
            while work:
                s0 = work.pop()
                try:
                    s1 = s0.fork()
                    [(s2, _, el)] = self.lib.next(self, s1, ref)
                    outs = f(s2, el.fs[0])
                except Fork as fk:
                    for g in fk.alts:
                        s2 = s0.fork()
                        if all(add_lit(self.ctx, s2.pc, l) for l in g): work.append(s2)
                    continue
                except Diverge as d:
                    r.append((s0, 'panic', d.msg)); continue
                for s3, kind, v in outs:
                    if kind == 'panic': r.append((s3, kind, v))
                    else: e.append((s3, 'each'))
            return e, r
        if seg[1] in self.folding: raise Unsupported('nested loops over the same sequence')
        self.folding.append(seg[1])
        try: return self._fold(name, st, 'each', loc, Iter((seg,)), seg, run)
        finally: self.folding.pop()

    def _fold(self, fname, s0, h, loc, it, seg, run):
        M = {}
        for rnd in range(8):
            s = s0.fork()
            self.write_loc(s, loc, Iter((('step', seg),) + it.segs[1:]))
            for k, (l, kind) in enumerate(sorted(M.items(), key=repr)):
                self.write_leaf(s, l, self.acc(kind, k, self.read_leaf(s0, l)))
            base = s.fork()
            token = object()
            self.loops.append((token, s.heap))
            d = len(self.loops)
            try:
                e, r = [], []
                if seg[0] == 'map' and any(len(b) != 1 for _, b in seg[2]):
                    # a filtered sequence: the body runs for the elements that are there
                    for g, b in seg[2]:
                        y = s.fork()
                        if not all(add_lit(self.ctx, y.pc, l) for l in g): continue
                        if not b:
                            self.write_loc(y, loc, Iter((('stepped', seg),) + it.segs[1:]))
                            e.append((y, h)); continue
                        if len(b) != 1 or b[0][0] != 'e': raise Unsupported('several elements per element')
                        self.write_loc(y, loc, Iter((('step', seg, b[0][1]),) + it.segs[1:]))
                        e1, r1 = run(y)
                        e += e1; r += r1
                else: e, r = run(s)
            finally:
                del self.loops[d-1:]
            backs = [x for x, b in e if b == h]
            outs = [(x, b) for x, b in e if b != h]
            new = False
            for x in backs:
                for l in self.diff(base, x, loc, seg[3] if seg[0] == 'mutall' else None):
                    if l not in M:
                        v = self.read_leaf(s0, l)
                        M[l] = 'toks' if isinstance(v, Toks) else 'seq' if isinstance(v, Seq) else 'str' if isinstance(v, Str) else \
                               'acc' if isinstance(v, Acc) else 'other'
                        new = True
            if not new: break
        else:
            raise Unsupported('fold does not stabilise')
        for x in backs:
            v = self.read_loc(x, loc)
            if not (isinstance(v, Iter) and v.segs and v.segs[0] == ('stepped', seg)):
                raise Unsupported('loop body does not consume exactly one element')
        keys = [l for l, _ in sorted(M.items(), key=repr)]
        seqt = self.segterm(seg)
        def finish(s, term, backs):
            for k, l in enumerate(keys):
                kind = M[l]
                v0 = self.read_leaf(s0, l)
                if kind == 'other':
                    self.write_leaf(s, l, Poison('loop-modified %s' % (l,))); continue
                cases = []
                for x in backs:
                    d = self.delta(kind, k, self.read_leaf(x, l), x)
                    g = lits_of(x.pc, base.pc)
                    cases.append((g, d))
                cases = canon(self.ctx, base.pc, tuple(cases))
                self.write_leaf(s, l, self.plus(kind, v0, term, cases))
            if seg[0] == 'mutall':
                orig = self.read_loc(s, seg[4])
                cases = [(lits_of(x.pc, base.pc), self.view(x, x.heap[seg[3]])) for x in backs]
                if len(seg) > 5: seqt2, cases = self.lib.per_typaram(self, s0, seg, cases)
                else: seqt2 = seqt
                if not all(v == Sym(('elem', seqt2), 'TypeParam') for _, v in cases):
                    self.write_loc(s, seg[4], Adt('MapParams', None, (orig, canon(self.ctx, base.pc, tuple(cases)))))
        post = s0.fork()
        finish(post, seqt, backs)
        self.write_loc(post, loc, Iter(it.segs[1:]))
        posts, eouts, erets = [post], [], []
        # early exits
        early = [(x, b, None) for x, b in outs] + [(x, None, (k, v)) for x, k, v in r]
        if early:
            # the loop runs to its end unless some element satisfies the exit condition
            conds = [(lits_of(x.pc, base.pc), True) for x, _, _ in early]
            cases = conds + [(lits_of(x.pc, base.pc), False) for x in backs]
            if any(mentions(a, 'acc') or mentions(a, 'prefix') for g, _ in cases for a, _, _ in g): atom, out = ('stays', seqt, fname, h), False
            else: atom, out = ('any', seqt, canon(self.ctx, base.pc, tuple(cases))), True
            if not add_lit(self.ctx, post.pc, (atom, '=', not out)): posts = []
            old, nw = ('elem', seqt), ('exit', seqt, fname, h)
            # whenever it does, the first such element is there
            self.axioms.append((dict(base.pc), (atom, '=', out), [tuple((subst(a, old, nw), o, v) for a, o, v in g) for g, _ in conds]))
            for x, b, rv in early:
                y = x
                # accumulators hold the fold over the elements before the exit
                for k, l in enumerate(keys):
                    kind = M[l]
                    if kind == 'other':
                        continue
                    cur = self.read_leaf(y, l)
                    try: dl = self.delta(kind, k, cur, y)
                    except Unsupported: raise
                    cases = canon(self.ctx, base.pc, tuple((lits_of(bk.pc, base.pc), self.delta(kind, k, self.read_leaf(bk, l), bk)) for bk in backs))
                    v = self.plus(kind, self.read_leaf(s0, l), ('prefix', seqt), cases)
                    v = self.append(kind, v, dl)
                    self.write_leaf(y, l, v)
                y.heap = {subst(c, old, nw): subst(v, old, nw) for c, v in y.heap.items()}
                y.pc = {subst(a, old, nw) if a not in base.pc else a: v for a, v in y.pc.items()}
                if not add_lit(self.ctx, y.pc, (atom, '=', out)): continue
                if rv is None: eouts.append((y, b))
                else: erets.append((y, rv[0], subst(rv[1], old, nw) if not isinstance(rv[1], str) else rv[1]))
        return posts, eouts, erets

    def segterm(self, seg):
        return seg[1]

    def acc(self, kind, k, v0):
        if kind == 'toks': return Toks((('acc', k),))
        if kind == 'seq': return Seq((('acc', k),))
        if kind == 'str': return Str((('acc', k),))
        if kind == 'acc': return Acc(Seq((('acc', k),)))
        return Poison('loop-carried value')

    def delta(self, kind, k, v, st):
        if kind == 'acc':
            if not isinstance(v, Acc): raise Unsupported('accumulator overwritten')
            v = v.errs
        xs = v.items if isinstance(v, Toks) else v.segs if isinstance(v, Seq) else v.parts if isinstance(v, Str) else None
        if xs is None or not xs or xs[0] != ('acc', k) or any(x == ('acc', k) for x in xs[1:]):
            raise Unsupported('loop-carried value is not append-only: %s' % show(v))
        return tuple(self.view_seg(st, x) for x in xs[1:])

    def view_seg(self, st, x):
        if isinstance(x, tuple) and x and x[0] == 'e': return ('e', self.view(st, x[1]))
        return x

    def plus(self, kind, v0, term, cases):
        if all(not b for _, b in cases): return v0
        if kind == 'toks': return Toks(v0.items + (('fm', term, cases),))
        if kind == 'seq': return Seq(v0.segs + (('map', term, cases),))
        if kind == 'str': return Str(v0.parts + (('smap', term, cases),))
        if kind == 'acc': return Acc(Seq(v0.errs.segs + (('map', term, cases),)))
    def append(self, kind, v, d):
        if kind == 'toks': return Toks(v.items + d)
        if kind == 'seq': return Seq(v.segs + d)
        if kind == 'str': return Str(v.parts + d)
        if kind == 'acc': return Acc(Seq(v.errs.segs + d))

    def read_leaf(self, st, l):
        v = st.heap[l[0]]
        for i in l[1]: v = v.fs[i]
        return v
    def write_leaf(self, st, l, x):
        def go(v, p):
            if not p: return x
            fs = list(v.fs); fs[p[0]] = go(fs[p[0]], p[1:]); return Adt(v.n, v.v, tuple(fs))
        st.heap[l[0]] = go(st.heap[l[0]], l[1])

    def diff(self, a, b, itloc, skip=None):
        """leaf locations whose value differs"""
        out = []
        def go(c, p, x, y):
            if x is y or x == y: return
            if isinstance(x, Adt) and isinstance(y, Adt) and x.n == y.n and x.v == y.v and len(x.fs) == len(y.fs) and x.fs:
                for i, (u, w) in enumerate(zip(x.fs, y.fs)): go(c, p + (i,), u, w)
                return
            if skip is not None and c == skip: return
            if isinstance(x, Iter) and isinstance(y, Iter) and x.segs and x.segs[0][0] == 'step' and y.segs and y.segs[0][0] == 'stepped' and x.segs[0][1] == y.segs[0][1]: return
            out.append((c, p))
        for c, x in a.heap.items():
            if c in b.heap: go(c, (), x, b.heap[c])
        return out

def strip1(t):
    t = t.strip()
    if t.startswith('&'):
        t = t[1:].strip()
        if t.startswith('mut '): t = t[4:]
        return t.strip()
    return t

def tm(v):
    return v.t if isinstance(v, Sym) else v

def mentions(v, what):
    if isinstance(v, tuple): return bool(v) and v[0] == what or any(mentions(x, what) for x in v)
    return False

def occurs(v, t):
    return v == t or isinstance(v, tuple) and any(occurs(x, t) for x in v)

def subst(v, old, new):
    if v == old: return new
    if isinstance(v, tuple):
        if len(v) >= 3 and v[0] in ('map', 'fm', 'smap', 'any') and v[1] in (old[1], ('prefix', old[1])): return v      # bound there
        xs = [subst(x, old, new) for x in v]
        if all(a is b for a, b in zip(xs, v)): return v
        return type(v)(*xs) if hasattr(v, '_fields') else tuple(xs)
    if isinstance(v, frozenset): return v
    return v

def unescape(s):
    def r(m):
        e = m.group(1)
        if e[0] == 'n': return '\n'
        if e[0] == 't': return '\t'
        if e[0] == 'r': return '\r'
        if e[0] == '0': return '\0'
        if e[0] == 'u': return chr(int(e[2:-1], 16))
        return e
    return re.sub(r'\\(u\{[0-9a-fA-F]+\}|.)', r, s)

def norm_const(k):
    return re.sub(r"<impl at [^>]*>", '', k)
