"""Symbolic values.  All immutable and hashable.

Sym(t, ty)      an unknown value named by the ground term t (references are erased from terms)
Adt(n, v, fs)   a struct (v None) / enum value / tuple ('tuple') / array ('array') / closure
Ref(cell, path) a reference to a place
Str(parts)      a string: literal pieces and terms
Toks(items)     a token stream (spans erased):
                  ('i', name) ident | ('p', char) | ('l', text) literal | ('lt', name) lifetime |
                  ('g', delim, items) | ('h', value) = to_tokens(value) | ('s', Str) string literal |
                  ('fm', seqterm, cases) = concatenation over the elements of a sequence |
                  ('acc', k) accumulator variable
Seq(segs)       a list: ('e', v) | ('all', term, elemty) | ('map', seqterm, cases) | ('acc', k)
Iter(segs)      an iterator over the rest of a list
Cases(cs)       tuple of (guard, value); guards are disjoint and cover the current path
Disc(v)         the discriminant of v
FnItem(name)    a function used as a value
"""
from collections import namedtuple

Sym = namedtuple('Sym', 't ty')
Adt = namedtuple('Adt', 'n v fs')
Ref = namedtuple('Ref', 'cell path')
Str = namedtuple('Str', 'parts')
Toks = namedtuple('Toks', 'items')
Seq = namedtuple('Seq', 'segs')
Iter = namedtuple('Iter', 'segs')
Cases = namedtuple('Cases', 'cs')
Disc = namedtuple('Disc', 'v')
FnItem = namedtuple('FnItem', 'name')
Poison = namedtuple('Poison', 'why')
Arg = namedtuple('Arg', 'v kind')          # fmt::Argument
Acc = namedtuple('Acc', 'errs')            # darling Accumulator: Seq of errors
for c in (Sym, Adt, Ref, Str, Toks, Seq, Iter, Cases, Disc, FnItem, Poison, Arg, Acc):
    # distinguish types in equality/hash
    def mk(c):
        name = c.__name__
        def eq(a, b): return type(a) is type(b) and tuple.__eq__(a, b)
        def ne(a, b): return not eq(a, b)
        def h(a): return hash((name, tuple.__hash__(a)))
        c.__eq__, c.__ne__, c.__hash__ = eq, ne, h
    mk(c)

UNIT = Adt('tuple', None, ())
def NONE(): return Adt('Option', 'None', ())
def SOME(v): return Adt('Option', 'Some', (v,))
def OK(v): return Adt('Result', 'Ok', (v,))
def ERR(v): return Adt('Result', 'Err', (v,))
def lit(s): return Str((s,) if s else ())
def tup(*a): return Adt('tuple', None, tuple(a))

def show_t(t):
    """terms, for people"""
    if not isinstance(t, tuple): return str(t)
    k = t[0]
    if k == 'v': return t[1]
    if k == 'f': return '%s.%s' % (show_t(t[1]), t[2])
    if k == 'elem': return 'each(%s)' % show_t(t[1])
    if k == 'app': return '%s(%s)' % (t[1], ', '.join(show(x) for x in t[2:]))
    if isinstance(t, (Sym, Adt, Str, Toks, Seq, Cases)): return show(t)
    return '%s(%s)' % (k, ', '.join(show_t(x) for x in t[1:]))

def show(v):
    if isinstance(v, Sym): return show_t(v.t)
    if isinstance(v, Adt):
        if v.n == 'tuple': return '(%s)' % ', '.join(map(show, v.fs))
        if v.n == 'array': return '[%s]' % ', '.join(map(show, v.fs))
        h = v.n + ('::' + v.v if v.v else '')
        return h + ('(%s)' % ', '.join(map(show, v.fs)) if v.fs else '')
    if isinstance(v, Str): return '"%s"' % ''.join(p if isinstance(p, str) else '{%s}' % show_t(p) for p in v.parts)
    if isinstance(v, Toks): return '`%s`' % show_items(v.items)
    if isinstance(v, Seq): return '[%s]' % ', '.join(show_seg(s) for s in v.segs)
    if isinstance(v, Iter): return 'iter[%s]' % ', '.join(show_seg(s) for s in v.segs)
    if isinstance(v, Cases): return 'cases{%s}' % '; '.join('%s => %s' % (show_g(g), show(x)) for g, x in v.cs)
    if isinstance(v, tuple) and not hasattr(v, '_fields'): return show_t(v)
    return repr(v)

def show_lit(l):
    a, op, x = l
    if x is True: return show_t(a) if op == '=' else '!' + show_t(a)
    if x is False: return '!' + show_t(a) if op == '=' else show_t(a)
    if op == '!=': x = '|'.join(map(str, sorted(x, key=str)))
    return '%s %s %s' % (show_t(a), op, x)
def show_g(g): return ' & '.join(show_lit(l) for l in g) or 'true'

def show_seg(s):
    if s[0] == 'e': return show(s[1])
    if s[0] == 'all': return '..' + show_t(s[1])
    if s[0] == 'map': return 'map(%s: %s)' % (show_t(s[1]), '; '.join('%s => [%s]' % (show_g(g), ', '.join(map(show_seg, b))) for g, b in s[2]) if isinstance(s[2], tuple) else s[2])
    return str(s)

def show_items(items):
    o = []
    for it in items:
        k = it[0]
        if k in ('i', 'p', 'l', 'lt'): o.append(it[1])
        elif k == 'g':
            a, b = {'(': '()', '{': '{}', '[': '[]', '': '⟦⟧'}[it[1]]
            o.append('%s %s %s' % (a, show_items(it[2]), b))
        elif k == 'h': o.append('#' + show(it[1]))
        elif k == 's': o.append(show(it[1]))
        elif k == 'fm': o.append('#(%s: %s)*' % (show_t(it[1]), '; '.join('%s => %s' % (show_g(g), show_items(b)) for g, b in it[2]) if isinstance(it[2], tuple) else 'spec'))
        else: o.append(str(it))
    return ' '.join(o)
