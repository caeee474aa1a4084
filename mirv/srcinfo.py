"""Names the compiler drops from textual MIR: struct field names, enum variant order, the type and
trait of an `<impl at file:line:col: ..>`; read from the sources being verified."""
import re, os, glob
from mirparse import norm_ty, split_top, match_close, base_ty

def strip_comments(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith('//', i):
            j = s.find('\n', i); j = n if j < 0 else j
            out.append(' ' * (j - i)); i = j
        elif s.startswith('/*', i):
            d, j = 1, i + 2
            while d and j < n:
                if s.startswith('/*', j): d += 1; j += 2
                elif s.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            out.append(re.sub(r'[^\n]', ' ', s[i:j])); i = j
        elif s[i] == '"' or (s[i] == 'r' and re.match(r'r#*"', s[i:]) and (i == 0 or not (s[i-1].isalnum() or s[i-1] == '_'))):
            if s[i] == 'r':
                m = re.match(r'r(#*)"', s[i:]); close = '"' + m.group(1)
                j = s.index(close, i + m.end()) + len(close)
            else:
                j = i + 1
                while s[j] != '"': j += 2 if s[j] == '\\' else 1
                j += 1
            out.append('"' + re.sub(r'[^\n]', 'S', s[i+1:j-1]) + '"'); i = j
        elif s[i] == "'" and re.match(r"'(\\.|[^\\'])'", s[i:]):
            m = re.match(r"'(\\.|[^\\'])'", s[i:]); out.append("'c'" + ' ' * (m.end() - 3)); i += m.end()
        else:
            out.append(s[i]); i += 1
    return ''.join(out)

def drop_attrs(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '#' and re.match(r'#!?\s*\[', s[i:]):
            i = match_close(s, s.index('[', i)); continue
        out.append(s[i]); i += 1
    return ''.join(out)

def cfg_test_spans(s):
    return []

class Src:
    def __init__(self):
        self.structs = {}     # name -> [(field, type)]
        self.enums = {}       # name -> [variant]
        self.variants = {}    # (enum, variant) -> [(field, type)]
        self.files = {}

    def add_file(self, path, rel=None):
        raw = open(path).read()
        s = re.sub(r'Token!\s*\[[^\w\]]*\w*\s*\]', lambda m: 'Token' + ' ' * (len(m.group(0)) - 5), strip_comments(raw))
        self.files[rel or path] = (raw, s)
        self.scan(s)

    def scan(self, s):
        for m in re.finditer(r'\b(struct|enum)\s+([A-Z]\w*)', s):
            kind, name = m.group(1), m.group(2)
            i = m.end()
            try:
                while i < len(s) and s[i].isspace(): i += 1
                if i < len(s) and s[i] == '<': i = match_close(s, i)
                # where clause
                k = i
                while k < len(s) and s[k] not in '{(;': k += 1
                if k >= len(s): continue
                if s[k] == ';' : 
                    if kind == 'struct': self.structs.setdefault(name, [])
                    continue
                j = match_close(s, k)
            except Exception:
                continue
            body = drop_attrs(s[k+1:j-1])
            try:
                if kind == 'struct':
                    if s[k] == '{': fs = self.fields(body)
                    else: fs = [(str(n), norm_ty(re.sub(r'^pub(\([^)]*\))?\s+', '', x))) for n, x in enumerate(split_top(body))]
                    self.structs.setdefault(name, fs)
                else:
                    vs = []
                    for x in split_top(body):
                        mm = re.match(r'\w+', x)
                        if not mm: continue
                        v = mm.group(0); vs.append(v)
                        rest = x[mm.end():].strip()
                        if rest.startswith('{'): self.variants.setdefault((name, v), self.fields(rest[1:match_close(rest, 0)-1]))
                        elif rest.startswith('('): self.variants.setdefault((name, v), [(str(n), norm_ty(y)) for n, y in enumerate(split_top(rest[1:match_close(rest, 0)-1]))])
                        else: self.variants.setdefault((name, v), [])
                    self.enums.setdefault(name, vs)
            except Exception:
                pass

    def fields(self, body):
        r = []
        for x in split_top(body):
            x = re.sub(r'^\s*pub(\([^)]*\))?\s+', '', x.strip())
            if ':' not in x: continue
            n, t = x.split(':', 1)
            r.append((n.strip(), norm_ty(t)))
        return r

    def derived(self, rel, l1, c1):
        line = self.files[rel][0].split('\n')[l1-1][c1-1:]
        return not line.lstrip().startswith(('impl', 'unsafe impl'))

    def impl_info(self, rel, l1, c1, l2, c2):
        """(type, trait) of the impl at that span"""
        raw, s = self.files[rel]
        lines = raw.split('\n')
        if l1 == l2: txt = lines[l1-1][c1-1:c2-1]
        else: txt = '\n'.join([lines[l1-1][c1-1:]] + lines[l1:l2-1] + [lines[l2-1][:c2-1]])
        if txt.lstrip().startswith(('impl', 'unsafe impl')):
            t = re.sub(r'\s+', ' ', txt).strip()
            t = re.sub(r'^unsafe ', '', t)[4:].strip()
            if t.startswith('<'): t = t[match_close(t, 0):].strip()
            t = t.split(' where ')[0].rstrip('{ ')
            m = re.search(r' for ', t)
            if m: return base_ty(t[m.end():]), norm_ty(t[:m.start()]).strip()
            return base_ty(t), None
        # a derive: the item after it
        rest = s.split('\n')[l1-1:]
        m = re.search(r'\b(?:struct|enum|union)\s+(\w+)', '\n'.join(rest))
        return (m.group(1) if m else None), norm_ty(txt)

def registry(crate, ver=None):
    c = sorted(glob.glob(os.path.expanduser('~/.cargo/registry/src/*/%s-%s' % (crate, ver or '[0-9]*'))))
    return c[-1] if c else None
