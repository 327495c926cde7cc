"""A small Rust tokenizer and item locator: enough to find functions, types and
loops in rustfmt-style or arbitrary Rust text without depending on layout."""
import re
from dataclasses import dataclass

@dataclass
class Tok:
    kind: str   # id, num, str, chr, life, punct
    text: str
    start: int
    end: int

class LexError(Exception):
    pass

_id = re.compile(r'[A-Za-z_][A-Za-z0-9_]*')
_num = re.compile(r'[0-9][0-9A-Za-z_]*(\.[0-9][0-9A-Za-z_]*)?([eE][+-]?[0-9_]+)?')

def lex(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            i += 1
            continue
        if s.startswith('//', i):
            j = s.find('\n', i)
            i = n if j < 0 else j
            continue
        if s.startswith('/*', i):
            d, j = 1, i + 2
            while d and j < n:
                if s.startswith('/*', j):
                    d += 1; j += 2
                elif s.startswith('*/', j):
                    d -= 1; j += 2
                else:
                    j += 1
            i = j
            continue
        m = re.compile(r'(b|c|br|cr|r)?(#*)"').match(s, i)
        if m and (m.group(1) or not m.group(2)):
            pre, hashes = m.group(1) or '', m.group(2)
            if 'r' in pre:
                j = s.find('"' + hashes, m.end())
                if j < 0: raise LexError('raw string')
                j += 1 + len(hashes)
                out.append(Tok('str', s[i:j], i, j)); i = j
                continue
            if not hashes:
                j = m.end()
                while s[j] != '"':
                    j += 2 if s[j] == '\\' else 1
                j += 1
                out.append(Tok('str', s[i:j], i, j)); i = j
                continue
        m = re.compile(r"b?'(\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^\\'])'").match(s, i)
        if m:
            out.append(Tok('chr', m.group(0), i, m.end())); i = m.end()
            continue
        m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*").match(s, i)
        if m:
            out.append(Tok('life', m.group(0), i, m.end())); i = m.end()
            continue
        m = re.compile(r'r#[A-Za-z_]\w*').match(s, i) or _id.match(s, i)
        if m:
            out.append(Tok('id', m.group(0), i, m.end())); i = m.end()
            continue
        m = _num.match(s, i)
        if m:
            t = m.group(0)
            # `0..3`: do not swallow a range operator
            out.append(Tok('num', t, i, m.end())); i = m.end()
            continue
        out.append(Tok('punct', c, i, i + 1)); i += 1
    return out

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {')', ']', '}'}

def match_close(toks, i):
    """index of the token closing the bracket at toks[i]"""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.kind == 'punct':
            if t.text in OPEN: d += 1
            elif t.text in CLOSE:
                d -= 1
                if d == 0: return j
    raise LexError('unbalanced')

def skip_angles(toks, i):
    """toks[i] is '<': index just past the matching '>'"""
    d = 0
    j = i
    while j < len(toks):
        t = toks[j].text
        if toks[j].kind == 'punct':
            if t == '<': d += 1
            elif t == '>':
                prev = toks[j-1]
                if not (prev.text == '-' and prev.end == toks[j].start):  # `->`
                    d -= 1
                    if d == 0: return j + 1
            elif t in OPEN:
                j = match_close(toks, j)
        j += 1
    raise LexError('angles')

class Source:
    def __init__(self, path, text):
        self.path, self.text = path, text
        self.toks = lex(text)
        self.items = []       # (kind, impl_type or None, name, first_tok, last_tok, container)
        self._scan(0, len(self.toks), None, ())

    def _attr_end(self, i):
        # toks[i] == '#': return the index after the attribute
        j = i + 1
        if self.toks[j].text == '!': j += 1
        return match_close(self.toks, j) + 1

    def _scan(self, i, end, impl, nest):
        T = self.toks
        attrs_start = None
        attrs = []
        while i < end:
            t = T[i]
            if t.text == '#' and i + 1 < end and T[i+1].text in '[!':
                if attrs_start is None: attrs_start = i
                j = self._attr_end(i)
                attrs.append(self.text[t.start:T[j-1].end])
                i = j
                continue
            first = i
            # skip visibility and qualifiers
            j = i
            while j < end and T[j].kind == 'id' and T[j].text in ('pub', 'unsafe', 'async', 'default') or (j < end and T[j].text == 'const' and j + 1 < end and T[j+1].text in ('fn', 'unsafe')) or (j < end and T[j].text == 'extern' and T[j+1].kind == 'str' and T[j+2].text == 'fn'):
                j += 1
                if T[j-1].text == 'pub' and T[j].text == '(':
                    j = match_close(T, j) + 1
            k = T[j].text if j < end else ''
            is_test = any(re.search(r'cfg\s*\(\s*test\s*\)|^#\[test\]', a) for a in attrs)
            if k == 'fn' and T[j+1].kind == 'id':
                name = T[j+1].text
                b = j + 2
                if T[b].text == '<': b = skip_angles(T, b)
                b = match_close(T, b) + 1
                while T[b].text not in ('{', ';'):
                    if T[b].text in ('(', '['): b = match_close(T, b) + 1
                    else: b += 1
                e = match_close(T, b) if T[b].text == '{' else b
                if not is_test:
                    self.items.append(('fn', impl, name, first, e, nest))
                    if T[b].text == '{':
                        self._scan_nested(b + 1, e, nest + (name,))
                i = e + 1
            elif k in ('struct', 'enum', 'union') and T[j+1].kind == 'id':
                name = T[j+1].text
                b = j + 2
                if T[b].text == '<': b = skip_angles(T, b)
                while T[b].text not in ('{', ';'):
                    if T[b].text in ('(', '['): b = match_close(T, b) + 1
                    else: b += 1
                e = match_close(T, b) if T[b].text == '{' else b
                if not is_test:
                    self.items.append((k, impl, name, first, e, nest))
                i = e + 1
            elif k in ('const', 'static', 'type') and j + 1 < end:
                name = T[j+1].text
                b = j
                while T[b].text != ';':
                    if T[b].text in OPEN: b = match_close(T, b) + 1
                    else: b += 1
                if not is_test:
                    self.items.append((k, impl, name, first, b, nest))
                i = b + 1
            elif k in ('impl', 'trait') :
                b = j + 1
                if T[b].text == '<': b = skip_angles(T, b)
                # self type: the last path identifier before '{' / where, after `for` if present
                ids, d = [], b
                trait = None
                while T[d].text not in ('{', 'where'):
                    if T[d].text == '<':
                        d = skip_angles(T, d); continue
                    if T[d].text == 'for':
                        trait = ids[-1] if ids else None
                        ids = []
                    elif T[d].text in ('(', '['):
                        d = match_close(T, d)
                    elif T[d].text == ':':
                        if T[d+1].text != ':' and k == 'trait':
                            pass
                    elif T[d].kind == 'id':
                        ids.append(T[d].text)
                    d += 1
                while T[d].text != '{':
                    d += 1
                e = match_close(T, d)
                nm = (ids[0] if k == 'trait' else ids[-1]) if ids else '?'
                if not is_test:
                    self.items.append((k, trait, nm, first, e, nest))
                    self._scan(d + 1, e, (nm, trait, first, d), nest)
                i = e + 1
            elif k == 'mod' and T[j+1].kind == 'id':
                if T[j+2].text == '{':
                    e = match_close(T, j + 2)
                    if not is_test:
                        self._scan(j + 3, e, None, nest)
                    i = e + 1
                else:
                    i = j + 3
            elif k == 'use':
                b = j
                while T[b].text != ';': b += 1
                i = b + 1
            elif k in ('macro_rules',) or (j + 1 < end and T[j].kind == 'id' and T[j+1].text == '!'):
                b = j
                while T[b].text not in OPEN: b += 1
                e = match_close(T, b)
                i = e + 1
                if i < end and T[i].text == ';': i += 1
            else:
                i = max(j, i) + 1
            attrs_start, attrs = None, []

    def _scan_nested(self, i, end, nest):
        """functions declared inside a function body"""
        T = self.toks
        while i < end:
            t = T[i]
            if t.kind == 'id' and t.text == 'fn' and T[i+1].kind == 'id' and T[i+2].text in ('(', '<'):
                name = T[i+1].text
                b = i + 2
                if T[b].text == '<': b = skip_angles(T, b)
                b = match_close(T, b) + 1
                while T[b].text not in ('{', ';'):
                    if T[b].text in ('(', '['): b = match_close(T, b) + 1
                    else: b += 1
                e = match_close(T, b)
                self.items.append(('fn', None, name, i, e, nest))
                self._scan_nested(b + 1, e, nest + (name,))
                i = e + 1
            else:
                i += 1

    def find(self, kind, path):
        """path: 'name', 'Type::name', 'Trait for Type::name', 'outer/name'"""
        nest = ()
        if '/' in path:
            parts = path.split('/')
            nest, path = tuple(parts[:-1]), parts[-1]
        impl = trait = None
        if '::' in path:
            impl, path = path.rsplit('::', 1)
            if ' for ' in impl:
                trait, impl = impl.split(' for ')
        hits = []
        for (k, im, nm, a, b, ns) in self.items:
            if nm != path or ns != nest: continue
            if kind == 'fn' and k != 'fn': continue
            if kind == 'type' and k not in ('struct', 'enum'): continue
            if kind == 'const' and k not in ('const', 'static', 'type'): continue
            if impl is None and im is not None: continue
            if impl is not None:
                if im is None or im[0] != impl: continue
                if trait != im[1] and trait is not None: continue
                if trait is None and im[1] is not None: continue
            hits.append((k, im, nm, a, b))
        return hits
