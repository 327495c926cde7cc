"""vx: mechanical extraction of functions from /repo into a Verus file.

A template (props/<ID>/spec.rs) is Verus text in which blocks

  /*@fn <path> :: <Type::name>      (also: @type, @const)
  #ret r                     name the return value
  #spec                      requires / ensures / decreases, verbatim
  #loop <n> [it=<ghost>]     invariants of the n-th loop of the body
  #at before|after|enter `tokens` [k]   ghost code placed at a token pattern
  #rewrite `tokens` => `tokens`         a listed, counted source rewrite
  #sig `tokens` => `tokens`             same, inside the signature
  #attr #[...]
  @*/

are replaced by the text of that item as it stands in /repo now.  The body is
the source text: attributes, doc comments and visibility are dropped, the
listed rewrites are applied (each must match, else the anchor is lost), ghost
code is inserted.  Nothing else is changed."""
import os, re, json, hashlib
from rusttok import Source, lex, match_close, OPEN, CLOSE, LexError

class AnchorLost(Exception):
    pass

REPO = os.environ.get('VERIF_REPO', '/repo')
_cache = {}

def source(path):
    full = os.path.join(REPO, path)
    if full not in _cache:
        try:
            txt = open(full, encoding='utf-8').read()
        except OSError as e:
            raise AnchorLost(f'{path}: {e}')
        try:
            _cache[full] = Source(path, txt)
        except (LexError, IndexError) as e:
            raise AnchorLost(f'{path}: cannot be tokenised ({e})')
    return _cache[full]

CTRL = {'if', 'else', 'for', 'while', 'loop', 'match', 'return', 'break', 'continue'}

def find_seq(toks, pat, lo, hi):
    ptoks = [t.text for t in lex(pat.replace('@BT@', '`'))]
    n = len(ptoks)
    hits = []
    for i in range(lo, hi - n + 1):
        if all(toks[i+k].text == ptoks[k] for k in range(n)):
            hits.append((i, i + n))
    return hits

def stmt_end(toks, i, hi):
    """offset just after the `;` ending the statement containing token i"""
    j = i
    while j < hi:
        t = toks[j].text
        if toks[j].kind == 'punct':
            if t in OPEN:
                j = match_close(toks, j)
            elif t in CLOSE:
                raise AnchorLost('no statement end')
            elif t == ';':
                return toks[j].end
        j += 1
    raise AnchorLost('no statement end')

def block_open(toks, i, hi):
    j = i
    while j < hi:
        if toks[j].kind == 'punct':
            if toks[j].text == '{': return j
            if toks[j].text in OPEN: j = match_close(toks, j)
        j += 1
    raise AnchorLost('no block')

def parse_block(txt):
    head, _, rest = txt.partition('\n')
    m = re.match(r'\s*(fn|type|const)\s+(\S+)\s*::\s*(.+?)\s*$', head)
    if not m: raise ValueError('bad directive: ' + head)
    d = dict(kind=m.group(1), path=m.group(2), name=m.group(3), ops=[])
    cur = None
    for line in rest.split('\n'):
        s = line.strip()
        if s.startswith('#') and not s.startswith('#['):
            cur = [s[1:], []]
            d['ops'].append(cur)
        elif cur is not None:
            cur[1].append(line)
        elif s:
            raise ValueError('stray text in directive: ' + line)
    return d

TICK = r'`([^`]*)`'

class Extracted:
    def __init__(self):
        self.fns = []        # dict(path, name, lines, first_line, last_line, skeleton, hash, rewrites)
        self.types = []
        self.dropped = set()
        self.lost = []

def cfg_true(attr):
    """value of a cfg attribute in the default (tested) configuration"""
    m = re.match(r'#\s*\[\s*cfg\s*\((.*)\)\s*\]$', attr, re.S)
    if not m: return None
    e = m.group(1).strip()
    def ev(e):
        e = e.strip()
        if e.startswith('not'): return not ev(e[e.index('(')+1:-1])
        if e.startswith('all') or e.startswith('any'):
            parts = split_top(e[e.index('(')+1:-1])
            vs = [ev(p) for p in parts if p.strip()]
            return all(vs) if e.startswith('all') else any(vs)
        if e == 'debug_assertions': return True
        return False
    return ev(e)

def split_top(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([{': d += 1
        if c in ')]}': d -= 1
        if c == ',' and d == 0:
            out.append(cur); cur = ''
        else: cur += c
    out.append(cur)
    return out

def apply_edits(text, base, edits):
    """edits: (start, end, replacement, order) absolute offsets"""
    edits = sorted(enumerate(edits), key=lambda e: (e[1][0], e[1][1], e[0]))
    out, pos = [], base[0]
    for _, (a, b, r) in edits:
        if a < pos: raise AnchorLost('overlapping edits near ' + repr(text[a:b][:60]) + repr(r[:60]))
        out.append(text[pos:a]); out.append(r); pos = b
    out.append(text[pos:base[1]])
    return ''.join(out)

def depth_ok(T, a, q):
    d = 0
    for i in range(a, q):
        if T[i].text in OPEN: d += 1
        elif T[i].text in (')', ']', '}'): d -= 1
    return d == 0

POSTS = {'bytes': ('b"..."', 'the same bytes as an array literal'),
         'then_with': ('X.then_with(|| E)', 'match X { Ordering::Equal => E, o => o } (its definition)'),
         'breakval': ('loop { .. break E .. } used as a value', 'the same loop assigning E to a variable before break')}

def recv_start(T, i):
    """index of the first token of the method-call receiver that ends just before the `.` at i"""
    j = i - 1
    while True:
        if T[j].text in (')', ']'):
            d, k = 0, j
            while True:
                if T[k].text in (')', ']', '}'): d += 1
                elif T[k].text in ('(', '[', '{'):
                    d -= 1
                    if d == 0: break
                k -= 1
            j = k
            if T[k-1].kind == 'id' and T[k-1].text not in ('return', 'match', 'in', 'if', 'break', 'else'): j = k - 1
        if T[j-1].text in ('.', '::'): j -= 2; continue
        if T[j-1].text == ':' and T[j-2].text == ':': j -= 3; continue
        return j

def post_then_with(out):
    n = 0
    while True:
        T = lex(out)
        i = next((i for i in range(1, len(T) - 1) if T[i].text == 'then_with' and T[i-1].text == '.' and T[i+1].text == '('), None)
        if i is None: return out, n
        e = match_close(T, i + 1)
        k = i + 2
        if T[k].text == '||': k += 1
        elif T[k].text == '|' and T[k+1].text == '|': k += 2
        else: raise AnchorLost('then_with: not a closure')
        r = recv_start(T, i - 1)
        body = out[T[k].start:T[e-1].end]
        if any(t.text == 'return' for t in T[k:e]):
            # `{ let ..; loop { .. return X; .. } }`: the closure's value is what its last loop returns
            ls = [q for q in range(k, e) if T[q].kind == 'id' and T[q].text in ('loop', 'while', 'for')]
            if len(ls) != 1 or T[ls[0]].text != 'loop' or T[e-1].text != '}' or T[e-2].text != '}' \
               or any(T[q].text == 'return' for q in range(k, ls[0])):
                raise AnchorLost('then_with: closure returns from elsewhere than its last loop')
            b0 = T[k].start
            for q in reversed([q for q in range(k, e) if T[q].text == 'return']):
                body = body[:T[q].start - b0] + 'break' + body[T[q].end - b0:]
        out = out[:T[r].start] + '(match ' + out[T[r].start:T[i-2].end] + ' { Ordering::Equal => ' + body + ', o_ => o_ })' + out[T[e].end:]
        n += 1

def post_bytes(out):
    """b"ab" => &[97u8, 98u8]"""
    import ast
    def f(m):
        v = ast.literal_eval('b' + re.sub(r'\\(.)', lambda e: '\\x00' if e.group(1) == '0' else e.group(0), m.group(1)))
        return '&[' + ', '.join(f'{x}u8' for x in v) + ']'
    return re.subn(r'\bb("(?:[^"\\]|\\.)*")', f, out, flags=re.S)

def post_breakval(out, init):
    n = 0
    while True:
        T = lex(out)
        todo = None
        for i in range(len(T)):
            if not (T[i].kind == 'id' and T[i].text == 'loop'): continue
            bo = block_open(T, i + 1, len(T))
            be = match_close(T, bo)
            inner = [(block_open(T, q + 1, be), q) for q in range(bo + 1, be) if T[q].kind == 'id' and T[q].text in ('loop', 'while', 'for')]
            bs = [q for q in range(bo + 1, be) if T[q].kind == 'id' and T[q].text == 'break' and T[q+1].text not in (';', '}', ',')
                  and not any(x < q < match_close(T, x) for x, _ in inner)]
            if bs: todo = (i, be, bs); break
        if todo is None: return out, n
        i, be, bs = todo
        eds = [(T[i].start, T[i].start, '{ let mut brk = ' + init + '; '), (T[be].end, T[be].end, ' brk }')]
        for q in bs:
            k = q + 1
            while T[k].text not in (';', ',', '}', ')'):
                if T[k].text in OPEN: k = match_close(T, k)
                k += 1
            semi = T[k].text == ';'
            eds.append((T[q].start, T[k].end if semi else T[k-1].end, '{ brk = ' + out[T[q+1].start:T[k-1].end] + '; break; }'))
        out = apply_edits(out, (0, len(out)), eds)
        n += 1

def macro_source(src, d):
    """the one arm of a local `macro_rules!`, as a function with the signature given by #macro: `$x` reads x"""
    T, text, nm = src.toks, src.text, d['name'][:-1]
    hs = find_seq(T, f'macro_rules ! {nm} {{', 0, len(T))
    if len(hs) != 1: raise AnchorLost(f"{d['path']} :: {d['name']}: found {len(hs)} times")
    k = hs[0][1]
    k = match_close(T, k) + 1                      # parameters
    if [t.text for t in T[k:k+2]] != ['=', '>'] and T[k].text != '=>': raise AnchorLost(f"{d['name']}: unexpected macro form")
    k += 1 if T[k].text == '=>' else 2
    e = match_close(T, k)
    if T[k+1].text == '{' and match_close(T, k + 1) == e - 1: k, e = k + 1, e - 1
    body = text[T[k].start:T[e].end].replace('$', '')
    if T[e+1].text not in ('}', ';') or (T[e+1].text == ';' and T[e+2].text not in ('}', '$') and T[e+2].text == '('): raise AnchorLost(f"{d['name']}: more than one arm")
    sig = next(op.split(None, 1)[1] for op, _ in d['ops'] if op.startswith('macro '))
    d['ops'] = [o for o in d['ops'] if not o[0].startswith('macro ')]
    return Source(src.path, sig + ' ' + body)

def extract(d, ex, opts):
    src = source(d['path'])
    if d['name'].endswith('!'):
        src = macro_source(src, d)
        d['name'] = d['name'][:-1]
    hits = src.find({'fn': 'fn', 'type': 'type', 'const': 'const'}[d['kind']], d['name'])
    if len(hits) != 1:
        raise AnchorLost(f"{d['path']} :: {d['name']}: found {len(hits)} times")
    kind, im, nm, a, b = hits[0]
    T, text = src.toks, src.text
    edits = []
    used_rewrites = []
    lost = []
    # attributes / visibility dropped
    i = a
    while i <= b:
        t = T[i]
        if t.text == '#' and i + 1 <= b and T[i+1].text == '[':
            e = match_close(T, i + 1)
            at = text[t.start:T[e].end]
            cv = cfg_true(at)
            if cv is False:
                # drop the attributed statement / arm / field
                j = e + 1
                if T[j].text == '{':
                    k = match_close(T, j)
                else:
                    k = j
                    while T[k].text not in (';', ','):
                        if T[k].text in OPEN:
                            k = match_close(T, k)
                            if T[k].text == '}' : break
                        k += 1
                edits.append((t.start, T[k].end, ''))
                ex.dropped.add(f'cfg-disabled code {at}')
                i = k + 1
                continue
            edits.append((t.start, T[e].end, ''))
            ex.dropped.add('attribute ' + re.sub(r'\s+', ' ', at))
            i = e + 1
            continue
        if t.kind == 'id' and t.text == 'pub' and not any(op == 'pub' for op, _ in d['ops']) and not (i > 0 and T[i-1].text == ':' ):
            e = i
            if T[i+1].text == '(' and T[i+2].text in ('crate', 'super', 'self', 'in'):
                e = match_close(T, i + 1)
            edits.append((t.start, T[e].end, ''))
            ex.dropped.add('visibility')
            i = e + 1
            continue
        i += 1
    if kind == 'fn':
        # a local macro is put under contract by itself (or stays behind: then its calls do not compile)
        for p_, q_ in find_seq(T, 'macro_rules !', a, b):
            k = q_
            while T[k].text != '{': k += 1
            e = match_close(T, k)
            edits.append((T[p_].start, T[e].end, ''))
            ex.dropped.add('local macro definition ' + T[q_].text)
    # disabled code is invisible to the anchors below
    gone = [(p, q) for p, q, r in edits if r == '' and q - p > 0]
    if gone:
        ta, tb = T[a], T[b]
        T = [t for t in T if not any(p <= t.start < q for p, q in gone)]
        a, b = next((i for i, t in enumerate(T) if t.start >= ta.start)), T.index(tb)
        edits = [e for e in edits if e[0] >= T[a].start]
    # comments disappear only from hashing; text keeps them
    def in_drop(x):
        return any(p <= x < q for p, q, r in edits if r == '')
    if kind == 'fn':
        # locate body
        j = a
        while T[j].text != 'fn': j += 1
        fn_i = j
        j += 2
        if T[j].text == '<':
            from rusttok import skip_angles
            j = skip_angles(T, j)
        par = j
        close = match_close(T, j)
        j = close + 1
        arrow = None
        where_i = None
        while T[j].text != '{':
            if T[j].text == '-' and T[j+1].text == '>' and arrow is None and where_i is None:
                arrow = j + 2
            if T[j].text == 'where' and where_i is None: where_i = j
            if T[j].text in ('(', '['): j = match_close(T, j)
            j += 1
        body = j
        end = b
        loops = [k for k in range(body, end) if T[k].kind == 'id' and (T[k].text in ('while', 'loop') or (T[k].text == 'for' and T[k+1].text != '<'))]
        skel = [T[k].text for k in range(body, end) if T[k].kind == 'id' and T[k].text in CTRL]
        spec, at_entry = '', []
        eaten = []
        d['ops'] = sorted(d['ops'], key=lambda o: 0 if o[0].startswith('loop') else 1)
        retname = None
        post = []
        attrs = []
        for op, lines in d['ops']:
            val = '\n'.join(lines).rstrip()
            w = op.split(None, 1)
            if w[0] == 'ret': retname = w[1].strip()
            elif w[0] == 'spec': spec = val
            elif w[0] == 'attr': attrs.append(w[1])
            elif w[0] == 'entry': at_entry.append(val)
            elif w[0] == 'end': edits.append((T[end].start, T[end].start, '\n' + val + '\n'))
            elif w[0] == 'tail':
                # the tail expression is named, ghost code put after it
                k = body + 1; st = k
                while k < end:
                    t = T[k].text
                    blocky = k == st and t in ('if', 'for', 'while', 'loop', 'match', 'unsafe', '{')
                    if blocky:
                        q = block_open(T, k + (t != '{'), end) if t != '{' else k
                        q = match_close(T, q)
                        while T[q+1].text == 'else': q = match_close(T, block_open(T, q + 1, end))
                        if q + 1 >= end or T[q+1].text in ('.', '?'): break
                        k = q + 1
                        if T[k].text == ';': k += 1
                        st = k; continue
                    if T[k].kind == 'punct' and t in OPEN: k = match_close(T, k)
                    elif t == ';': st = k + 1
                    k += 1
                if st >= end: lost.append(f"{d['name']}: no tail expression"); continue
                edits.append((T[st].start, T[st].start, f'let {w[1].strip()} = '))
                edits.append((T[end-1].end, T[end-1].end, f';\n{val}\n{w[1].strip()}'))
                used_rewrites.append(('tail expression', f'named {w[1].strip()}', 1))
            elif w[0] == 'loop':
                m = re.match(r'loop\s+(\d+)(?:\s+it=(\w+))?(?:\s+while=(\w+))?(?:\s+list=(\w+))?', op)
                n = int(m.group(1))
                if n >= len(loops):
                    lost.append(f"{d['name']}: loop {n} not found"); continue
                li = loops[n]
                bo = block_open(T, li + 1, end) if T[li].text != 'loop' else li + 1
                if m.group(3):
                    # `for PAT in SLICE {` is desugared to an index loop (the verifier has no `continue` in for loops)
                    ix = m.group(3)
                    k = li
                    while T[k].text != 'in':
                        if T[k].text in OPEN: k = match_close(T, k)
                        k += 1
                    pat, ex_ = text[T[li+1].start:T[k-1].end], text[T[k+1].start:T[bo-1].end]
                    # rewrites that apply inside the iterated expression
                    for op2, _ in d['ops']:
                        m2 = re.match(r'rewrite\??\s+' + TICK + r'\s*=>\s*' + TICK, op2)
                        if not m2: continue
                        for p2, q2 in reversed(find_seq(T, m2.group(1), k + 1, bo)):
                            b0 = T[k+1].start
                            ex_ = ex_[:T[p2].start - b0] + m2.group(2) + ex_[T[q2-1].end - b0:]
                            used_rewrites.append((m2.group(1), m2.group(2), 1))
                            break
                    eaten.append((T[k+1].start, T[bo].start))
                    rg = next((q for q in range(k + 1, bo) if T[q].text in ('.', '..', '..=') and (T[q].text != '.' or T[q+1].text == '.') and depth_ok(T, k + 1, q)), None)
                    if rg is not None:
                        # `for i in A..B {` / `A..=B`
                        q2 = rg
                        while T[q2].text in ('.', '..', '..=', '=') and q2 < rg + 3: q2 += 1
                        dots = text[T[rg].start:T[q2-1].end]
                        lo_, hi_ = text[T[k+1].start:T[rg-1].end], text[T[q2].start:T[bo-1].end]
                        op_ = '<=' if '=' in dots else '<'
                        edits.append((T[li].start, T[li].start, f'let {ix}_e = {hi_}; let mut {ix} = {lo_}; '))
                        edits.append((T[li].start, T[bo].start, f'while {ix} {op_} {ix}_e\n{val}\n'))
                        edits.append((T[bo].end, T[bo].end, f' let {pat} = {ix}; {ix} += 1;'))
                        used_rewrites.append((f'for {pat} in {ex_}', f'index loop over {ix}', 1))
                        continue
                    elem = f'&{ix}_s[{ix}]'
                    bind = ''
                    if m.group(4):
                        # a set: read as the list of its elements
                        mi = re.search(r'\.\s*iter\s*\(\s*\)$', ex_)
                        if ex_.lstrip().startswith('&'): ex_ = f'({ex_}).{m.group(4)}()'
                        elif m.group(4) == 'list' and mi: ex_ = f'{ex_[:mi.start()]}.list()'
                        elif m.group(4) == 'self_': elem = f'{ix}_s[{ix}]'
                        else: ex_, elem = f'{ex_}.{m.group(4)}()', f'{ix}_s[{ix}]'
                    m4 = re.match(r'(.*\.\s*into_iter\s*\(\s*\))\s*\.\s*map\s*\(\s*\|\s*(\w+)\s*\|(.*)\)$', ex_, re.S)
                    if m4:
                        # a lazily mapped iterator: the closure body runs once per iteration
                        ex_, bind = m4.group(1), (m4.group(2), m4.group(3).strip())
                    m5 = re.search(r'\.\s*into_iter\s*\(\s*\)$', ex_)
                    if m5:
                        # elements are Copy (checked by the compiler: they are moved out of an indexed place)
                        ex_, elem = ex_[:m5.start()], f'{ix}_s[{ix}]'
                    m8 = re.search(r'\.\s*iter\s*\(\s*\)\s*\.\s*enumerate\s*\(\s*\)\s*\.\s*rev\s*\(\s*\)$', ex_)
                    if m8:
                        ex_ = '&' + ex_[:m8.start()]
                        edits.append((T[li].start, T[li].start, f'let {ix}_s = {ex_}; let mut {ix}: usize = {ix}_s.len(); '))
                        edits.append((T[li].start, T[bo].start, f'while {ix} > 0\n{val}\n'))
                        edits.append((T[bo].end, T[bo].end, f' {ix} -= 1; let {pat} = ({ix}, &{ix}_s[{ix}]);'))
                        used_rewrites.append((f'for {pat} in {ex_}.iter().enumerate().rev()', f'descending index loop over {ix}', 1))
                        continue
                    m9 = re.match(r'(.*)\.\s*iter_mut\s*\(\s*\)\s*\.\s*zip\s*\((.*)\.\s*iter\s*\(\s*\)\s*\)$', ex_, re.S)
                    mp = re.match(r'\(\s*(\w+)\s*,\s*(\w+)\s*\)$', pat)
                    if m9 and mp:
                        A_, B_ = m9.group(1).strip(), m9.group(2).strip()
                        edits.append((T[li].start, T[li].start, f'let {ix}_n = if {A_}.len() < {B_}.len() {{ {A_}.len() }} else {{ {B_}.len() }}; let mut {ix}: usize = 0; '))
                        edits.append((T[li].start, T[bo].start, f'while {ix} < {ix}_n\n{val}\n'))
                        edits.append((T[bo].end, T[bo].end, f' let {mp.group(1)} = &mut {A_}[{ix}]; let {mp.group(2)} = &{B_}[{ix}]; {ix} += 1;'))
                        used_rewrites.append((f'for {pat} in {ex_}', f'index loop over {ix} up to the shorter length', 1))
                        continue
                    m3 = re.search(r'\.\s*iter\s*\(\s*\)(\s*\.\s*(?:copied|cloned)\s*\(\s*\))?(\s*\.\s*enumerate\s*\(\s*\))?$', ex_)
                    if m3:
                        ex_ = '&' + ex_[:m3.start()]
                        if m3.group(1): elem = f'{ix}_s[{ix}]'
                        if m3.group(2): elem = f'({ix}, {elem})'
                    st = li
                    if T[li-1].text == ':': st = li - 2
                    m6 = re.search(r'\.\s*iter_mut\s*\(\s*\)$', ex_)
                    if m6:
                        ex_ = ex_[:m6.start()]
                        edits.append((T[st].start, T[st].start, f'let mut {ix}: usize = 0; '))
                        edits.append((T[li].start, T[bo].start, f'while {ix} < {ex_}.len()\n{val}\n'))
                        edits.append((T[bo].end, T[bo].end, f' let {pat} = &mut {ex_}[{ix}]; {ix} += 1;'))
                        used_rewrites.append((f'for {pat} in {ex_}.iter_mut()', f'index loop over {ix}', 1))
                        continue
                    m7 = re.match(r'\(\s*&\s*(\w+)\s*,\s*&\s*(\w+)\s*\)$', pat)
                    if m7 and not bind: pat, elem = f'({m7.group(1)}, {m7.group(2)})', f'(*{elem}.0, *{elem}.1)'
                    elif re.match(r'&\s*\w+$', pat) and elem.startswith('&'): pat, elem = pat[1:].strip(), elem[1:]
                    edits.append((T[st].start, T[st].start, f'let {ix}_s = {ex_}; let mut {ix}: usize = 0; '))
                    edits.append((T[li].start, T[bo].start, f'while {ix} < {ix}_s.len()\n{val}\n'))
                    edits.append((T[bo].end, T[bo].end, (f' let {bind[0]} = {elem}; {ix} += 1; let {pat} = {bind[1]};' if bind else f' let {pat} = {elem}; {ix} += 1;')))
                    used_rewrites.append((f'for {pat} in {ex_}', f'index loop over {ix}', 1))
                    continue
                edits.append((T[bo].start, T[bo].start, '\n' + val + '\n'))
                if m.group(2):
                    k = li
                    while T[k].text != 'in':
                        if T[k].text in OPEN: k = match_close(T, k)
                        k += 1
                    edits.append((T[k].end, T[k].end, f' {m.group(2)}: '))
            elif w[0] == 'at':
                m = re.match(r'at\s+(before|after|enter|afterblock|exit)\s+' + TICK + r'(?:\s+(\d+))?', op)
                mode, pat, k = m.group(1), m.group(2), int(m.group(3) or 0)
                hs = find_seq(T, pat, body, end + 1)
                # a proof hint whose anchor is gone is left out: it cannot make a wrong proof pass
                if k >= len(hs):
                    lost.append(f"{d['name']}: anchor `{pat}` not found"); continue
                if m.group(3) is None and len(hs) > 1:
                    lost.append(f"{d['name']}: anchor `{pat}` ambiguous ({len(hs)})"); continue
                h = hs[k]
                if mode == 'before': off = T[h[0]].start
                elif mode == 'after': off = stmt_end(T, h[0], end)
                elif mode == 'enter': off = T[block_open(T, h[0], end)].end
                elif mode == 'exit': off = T[match_close(T, block_open(T, h[0], end))].start
                else:
                    e = match_close(T, block_open(T, h[0], end))
                    while T[e+1].text == 'else':
                        e = match_close(T, block_open(T, e + 1, end))
                    if T[e+1].text == ';': e += 1
                    off = T[e].end
                edits.append((off, off, '\n' + val + '\n'))
            elif w[0] in ('rewrite', 'sig', 'rewrite?'):
                m = re.match(r'(rewrite\??|sig)\s+' + TICK + r'\s*=>\s*' + TICK, op)
                lo, hi = (body, end + 1) if w[0] != 'sig' else (fn_i, body)
                hs = find_seq(T, m.group(2), lo, hi)
                if not hs:
                    if w[0] == 'rewrite?': continue
                    lost.append(f"{d['name']}: `{m.group(2)}` not found"); continue
                # inside the iterated expression, or inside an earlier (longer) rewrite: already dealt with
                hs = [(p, q) for p, q in hs if not any(x <= T[p].start < y for x, y in eaten)
                      and not any(x <= T[p].start and T[q-1].end <= y and x < y for x, y, _ in edits)]
                if not hs: continue
                for p, q in hs:
                    edits.append((T[p].start, T[q-1].end, m.group(3).replace('@BT@', '`')))
                used_rewrites.append((m.group(2), m.group(3), len(hs)))
            elif w[0] in ('note', 'pub'):
                pass
            elif w[0] == 'post':
                post.append(w[1])
            else:
                raise ValueError('unknown op ' + op)
        if retname:
            if arrow is None:
                raise AnchorLost(f"{d['name']}: no return type")
            stop = where_i if where_i is not None else body
            edits.append((T[arrow].start, T[arrow].start, f'({retname}: '))
            edits.append((T[stop-1].end, T[stop-1].end, ')'))
        if spec:
            edits.append((T[body].start, T[body].start, '\n' + spec + '\n'))
        for v in at_entry:
            edits.append((T[body].end, T[body].end, '\n' + v + '\n'))
        if opts.get('vacuity') and spec:
            edits.append((T[body].end, T[body].end, f'\n assert(false); /*VACUITY {d["name"]}*/\n'))
        out = apply_edits(text, (T[a].start, T[b].end), edits)
        for p_ in post:
            n_ = 0
            if p_ == 'then_with': out, n_ = post_then_with(out)
            elif p_ == 'bytes': out, n_ = post_bytes(out)
            elif p_.startswith('breakval'): out, n_ = post_breakval(out, p_.split(None, 1)[1])
            else: raise ValueError('unknown post ' + p_)
            if n_: used_rewrites.append(POSTS[p_.split()[0]] + (n_,))
        norm = ' '.join(t.text for t in T[a:b+1] if not in_drop(t.start))
        ex.fns.append(dict(path=d['path'], name=d['name'], skeleton=' '.join(skel),
                           sha=hashlib.sha256(norm.encode()).hexdigest()[:16],
                           spec=bool(spec), rewrites=used_rewrites, lost=lost,
                           src_line=text.count('\n', 0, T[a].start) + 1))
        marker = f'/*FN {d["path"]} :: {d["name"]}*/'
        return ''.join(x + '\n' for x in attrs) + marker + ' ' + out + f' /*END*/'
    # types and consts
    pre = ''
    for op, lines in d['ops']:
        w = op.split(None, 1)
        if w[0] == 'derive': pre += f'#[derive({w[1]})]\n'
        elif w[0] == 'attr': pre += w[1] + '\n'
        elif w[0] == 'rewrite':
            m = re.match(r'rewrite\s+' + TICK + r'\s*=>\s*' + TICK, op)
            hs = find_seq(T, m.group(1), a, b + 1)
            if not hs: raise AnchorLost(f"{d['name']}: `{m.group(1)}` not found")
            for p, q in hs:
                edits.append((T[p].start, T[q-1].end, m.group(2)))
            used_rewrites.append((m.group(1), m.group(2), len(hs)))
        elif w[0] in ('note', 'pub'): pass
        else: raise ValueError('unknown op ' + op)
    out = apply_edits(text, (T[a].start, T[b].end), edits)
    ex.types.append(dict(path=d['path'], name=d['name'], rewrites=used_rewrites))
    return pre + out

BLOCK = re.compile(r'/\*@(.*?)@\*/', re.S)

def build(template_text, opts=None):
    """-> (verus text, Extracted).  Raises AnchorLost."""
    opts = opts or {}
    ex = Extracted()
    def inc(m):
        return open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'props', 'lib', m.group(1))).read()
    template_text = re.sub(r'/\*@include\s+(\S+?)\s*@\*/', inc, template_text)
    def sub(m):
        return extract(parse_block(m.group(1)), ex, opts)
    out = BLOCK.sub(sub, template_text)
    # line ranges of functions
    for f in ex.fns:
        mk = f'/*FN {f["path"]} :: {f["name"]}*/'
        p = out.index(mk)
        q = out.index('/*END*/', p)
        f['first_line'] = out.count('\n', 0, p) + 1
        f['last_line'] = out.count('\n', 0, q) + 1
    return out, ex

def trusted_scan(text):
    """every construct in the verified text that is assumed, not proved"""
    res = []
    body = re.sub(r'//[^\n]*', '', text)
    for m in re.finditer(r'assume_specification\s*(?:<[^\[]*>)?\s*\[([^\]]*(?:\[[^\]]*\][^\]]*)*)\]', body):
        res.append('assumed contract of external function ' + re.sub(r'\s+', '', m.group(1)))
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:broadcast\s+)?(?:pub\s+)?(?:proof\s+|exec\s+)?(fn|struct|enum)\s+(\w+)', body):
        res.append(f'external_body {m.group(1)} {m.group(2)}')
    for m in re.finditer(r'#\[verifier::external_type_specification\][^{;]*?struct\s+(\w+)', body):
        res.append('external type ' + m.group(1))
    for m in re.finditer(r'\b(assume|admit)\s*\(', body):
        res.append(m.group(1) + ' at offset %d' % m.start())
    for m in re.finditer(r'\baxiom\s+fn\s+(\w+)', body):
        res.append('axiom ' + m.group(1))
    for m in re.finditer(r'uninterp\s+spec\s+fn\s+(\w+)', body):
        res.append('uninterpreted function ' + m.group(1))
    return res

if __name__ == '__main__':
    import sys
    t = open(sys.argv[1]).read()
    out, ex = build(t, {'vacuity': '--vacuity' in sys.argv})
    open(sys.argv[2], 'w').write(out)
    for f in ex.fns:
        for l in f['lost']: print('LOST', l, file=sys.stderr)
    print(json.dumps(dict(fns=ex.fns, dropped=sorted(ex.dropped), trusted=trusted_scan(out)), indent=1))
