"""Token-level Rust source access: comments stripped, items located by path, bodies returned as
text. Nothing here knows about the properties."""
import re, functools, os

REPO = os.environ.get('VX_REPO', '/repo')

class Lost(Exception):
    """an anchor (item, function, loop) the unit needs is not there in the expected shape"""

def strip_comments(s):
    out = []; i = 0; n = len(s)
    while i < n:
        c = s[i]
        if s.startswith('//', i):
            j = s.find('\n', i)
            i = n if j < 0 else j
        elif s.startswith('/*', i):
            d = 1; i += 2
            while i < n and d:
                if s.startswith('/*', i): d += 1; i += 2
                elif s.startswith('*/', i): d -= 1; i += 2
                else: i += 1
            out.append(' ')
        elif c == '"' or (c in 'rb' and re.match(r'(br|rb|r|b)#*"', s[i:]) and not (i and (s[i-1].isalnum() or s[i-1] == '_'))):
            m = re.match(r'(br|rb|r)(#*)"', s[i:])
            if m:
                end = '"' + m.group(2)
                j = s.find(end, i + m.end()) + len(end)
            else:
                j = i + (2 if c == 'b' else 1)
                while s[j] != '"':
                    j += 2 if s[j] == '\\' else 1
                j += 1
            out.append(s[i:j]); i = j
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^\\'])'", s[i:])
            if m: out.append(m.group(0)); i += m.end()
            else: out.append(c); i += 1
        else:
            out.append(c); i += 1
    return ''.join(out)

def mask(s):
    """same length, with string/char literals blanked so that braces can be counted"""
    def f(m): return ' ' * len(m.group(0))
    s = re.sub(r'"(?:\\.|[^"\\])*"', f, s)
    return re.sub(r"'(?:\\.[^']*|[^\\'])'", f, s)

PAIR = {'{': '}', '(': ')', '[': ']'}
def match(ms, i):
    """index of the bracket closing the one at ms[i]"""
    st = []
    for j in range(i, len(ms)):
        c = ms[j]
        if c in '{([': st.append(PAIR[c])
        elif c in '})]':
            if not st or st.pop() != c: raise Lost('unbalanced')
            if not st: return j
    raise Lost('unbalanced')

@functools.lru_cache(None)
def load(path):
    if path.startswith('expanded:'):
        from . import expand
        return strip_comments(expand.text(path[9:]))
    p = os.path.join(REPO, path)
    if not os.path.exists(p): raise Lost(f'{path}: no such file')
    return strip_comments(open(p).read())

def cut_tests(s):
    ms = mask(s)
    out = s
    while True:
        m = re.search(r'#\[cfg\((test|feature = "elusiv-client")\)\]\s*(#\[[^\]]*\]\s*)*(pub(\([a-z]+\))?\s+)?(mod|fn|const_assert\w*!|impl|use|macro_rules!)', out)
        if not m: return out
        ms = mask(out)
        kw = m.group(5)
        if kw in ('use',) or kw.startswith('const_assert'):
            j = ms.find(';', m.end())
        else:
            j = match(ms, ms.find('{', m.end()))
        out = out[:m.start()] + out[j+1:]

class Blk:
    def __init__(self, head, body, path): self.head, self.body, self.path = head, body, path

@functools.lru_cache(None)
def source(path): return cut_tests(load(path))

def rx(h):
    """header pattern: words separated by flexible white space"""
    return re.compile(r'(?<![\w])' + r'\s*'.join(re.escape(t) for t in re.findall(r'\w+|[^\w\s]', h)) + r'(?![\w])')

def block(text, header, path=''):
    ms = mask(text)
    for m in rx(header).finditer(ms):
        i = ms.find('{', m.end() - (1 if header.endswith('{') else 0)); k = ms.find(';', m.end())
        if i < 0 or (0 <= k < i and '[' not in ms[m.end():i]): continue
        j = match(ms, i)
        return Blk(text[m.start():i], text[i+1:j], path)
    raise Lost(f'{path}: no `{header}`')

def blocks(text, header, path=''):
    ms = mask(text); r = []
    for m in rx(header).finditer(ms):
        i = ms.find('{', m.end()); j = match(ms, i)
        r.append(Blk(text[m.start():i], text[i+1:j], path))
    return r

class Fn:
    def __init__(self, name, sig, body, path): self.name, self.sig, self.body, self.path = name, sig, body, path

def fn_in(text, name, path=''):
    ms = mask(text)
    for m in re.finditer(r'(pub(\([a-z ]+\))?\s+)?(const\s+)?fn\s+' + re.escape(name) + r'(?![\w])', ms):
        d = 0; i = m.end()
        while i < len(ms):
            c = ms[i]
            if c in '([': i = match(ms, i)
            elif c == '{': break
            elif c == ';': break
            i += 1
        if i >= len(ms) or ms[i] == ';': continue
        j = match(ms, i)
        return Fn(name, text[m.start():i], text[i+1:j], path)
    raise Lost(f'{path}: no function `{name}`')

def get_fn(path, name, within=None):
    t = source(path)
    if within and within.startswith('macro:'):
        # macro:<def path>:<macro>:<first argument>[:<block header>]
        _, dp, mn, first, *hd = within.split(':', 4)
        t = expand_macro(dp, mn, path, first)
        within = hd[0] if hd else None
    if within:
        errs = None
        for b in blocks(t, within, path):
            try: return fn_in(b.body, name, path)
            except Lost as e: errs = e
        raise errs or Lost(f'{path}: no `{within}`')
    return fn_in(t, name, path)

def expand_macro(def_path, mname, use_path, first):
    """text of `mname!(first, ...)` (the invocation found in use_path) with its only arm's
    parameters substituted"""
    t = load(def_path); ms = mask(t)
    m = re.search(r'macro_rules!\s*' + mname + r'\s*\{', ms)
    if not m: raise Lost(f'{def_path}: no macro {mname}')
    body = t[m.end():match(ms, m.end() - 1)]
    mb = mask(body)
    i = mb.index('('); j = match(mb, i)
    params = [p for p in re.findall(r'\$(\w+)\s*:\s*\w+', body[i:j])]
    k = mb.index('{', j); e = match(mb, k)
    arm = body[k+1:e]
    t2 = load(use_path); m2s = mask(t2)
    for m in re.finditer(r'(?<!\w)' + mname + r'!\s*([({])', m2s):
        q = match(m2s, m.end() - 1)
        args = split_args(t2[m.end():q])
        if args and args[0] == first and len(args) == len(params):
            for p, a in zip(params, args):
                arm = re.sub(r'\$' + p + r'\b', lambda _: a, arm)
            return arm
    raise Lost(f'{use_path}: no {mname}!({first}, ..)')

def split_args(s):
    ms = mask(s); r = []; st = 0; i = 0
    while i < len(ms):
        if ms[i] in '([{': i = match(ms, i)
        elif ms[i] == ',': r.append(s[st:i].strip()); st = i + 1
        i += 1
    if s[st:].strip(): r.append(s[st:].strip())
    return r

def get_const(path, name, within=None):
    t = source(path)
    if within: t = block(t, within, path).body
    ms = mask(t)
    m = re.search(r'(pub(\([a-z]+\))?\s+)?(const|static)\s+' + re.escape(name) + r'\s*:', ms)
    if not m: raise Lost(f'{path}: no const {name}')
    i = m.end()
    while ms[i] != ';':
        if ms[i] in '([{': i = match(ms, i)
        i += 1
    return re.sub(r'^pub\([a-z]+\)', 'pub', t[m.start():i+1])

def get_item(path, header, within=None):
    t = source(path)
    if within: t = block(t, within, path).body
    ms = mask(t)
    m = rx(header).search(ms)
    if m and header.startswith('struct') and ms[m.end():].lstrip()[:1] == '(':
        return 'pub ' + t[m.start():ms.index(';', match(ms, ms.index('(', m.end()))) + 1]
    b = block(t, header, path)
    return 'pub ' + b.head + '{' + re.sub(r'#\[[^\]]*\]', '', b.body) + '}'

def closures(body):
    """[(start, open brace, close brace)] of the closures with a block body"""
    ms = mask(body); out = []
    for m in re.finditer(r'(?<![|\w)\]])\s*(?:move\s+)?(\|(?:[^|(){};]|\([^|]*\))*\|)\s*\{', ms):
        out.append((m.start(1), m.end() - 1, match(ms, m.end() - 1)))
    return out

def all_closures(body):
    """[(start, body start, body end, end)] of every closure in order; an expression body ends before the `,` or bracket that follows it"""
    ms = mask(body); out = []
    for m in re.finditer(r'(?<![|\w)\]])\s*(?:move\s+)?(\|(?:[^|(){};]|\([^|]*?\))*\|)\s*', ms):
        e = m.end()
        if ms[e] == '{':
            j = match(ms, e); out.append((m.start(1), e + 1, j, j + 1)); continue
        j = e
        while j < len(ms) and ms[j] not in ',)]};':
            if ms[j] in '([{': j = match(ms, j)
            j += 1
        out.append((m.start(1), e, j, j))
    return out

def loops(body):
    """[(keyword index, index of the loop body's `{`, index of its `}`)] in order of appearance"""
    ms = mask(body); r = []
    for m in re.finditer(r'(?<![\w.])(while|for|loop)(?![\w])', ms):
        if m.group(1) == 'for' and ms[m.end():m.end()+1] == '<': continue
        i = m.end()
        if m.group(1) == 'for':          # the pattern may contain braces
            while not re.match(r'\bin\b', ms[i:i+3]) or ms[i-1].isalnum() or ms[i-1] == '_':
                if ms[i] in '([{': i = match(ms, i)
                i += 1
        while ms[i] != '{':
            if ms[i] in '([': i = match(ms, i)
            i += 1
        r.append((m.start(), i, match(ms, i)))
    return r

def head_breaks(body):
    """`loop { if C { break; } REST }` as `while !(C) { REST }`; (text, how often)"""
    n = 0
    while True:
        ms = mask(body)
        for m in re.finditer(r'(?<![\w.])loop\s*\{\s*if\b(?!\s*let\b)', ms):
            i = m.end()
            while ms[i] != '{':
                if ms[i] in '([': i = match(ms, i)
                i += 1
            j = match(ms, i)
            if re.fullmatch(r'\s*break\s*;?\s*', ms[i + 1:j]) and not re.match(r'\s*else\b', ms[j + 1:]):
                body = body[:m.start()] + f'while !({body[m.end():i].strip()}) ' + '{' + body[j + 1:]; n += 1
                break
        else: return body, n

def struct_fields(path, header):
    """[(attrs, name, type)] of a struct"""
    return fields_of(block(source(path), header, path).body)

def fields_of(b):
    ms = mask(b); r = []; i = 0; start = 0; d = 0
    parts = []
    while i < len(ms):
        c = ms[i]
        if c in '([{': i = match(ms, i)
        elif c == '<': d += 1
        elif c == '>' : d -= 1
        elif c == ',' and d == 0: parts.append(b[start:i]); start = i + 1
        i += 1
    parts.append(b[start:])
    for p in parts:
        p = p.strip()
        if not p: continue
        attrs = re.findall(r'#\[([^\]]*)\]', p)
        q = re.sub(r'#\[[^\]]*\]', '', p).strip()
        q = re.sub(r'^pub(\([a-z]+\))?\s+', '', q)
        n, t = q.split(':', 1)
        r.append((attrs, n.strip(), t.strip()))
    return r

def iter_chains(body, types=()):
    """range iterator chains as the loops they stand for: (a..b).all/any/find(|i| E), (a..b)[.filter_map(|i| E)|.map(..)].collect(),
    x.iter().map(|i| E).collect::<..>()"""
    n = 0; done = []
    while True:
        ms = mask(body)
        m = None
        for m in re.finditer(r'\.\s*(all|any|find|filter_map|map)\s*\(\s*\|\s*(\w+)\s*\|', ms):
            k = m.start()
            while k > 0 and ms[k-1].isspace(): k -= 1
            kind = None
            if k > 0 and ms[k-1] == ')':
                d = 0; q = k - 1
                while q >= 0:
                    if ms[q] == ')': d += 1
                    elif ms[q] == '(':
                        d -= 1
                        if d == 0: break
                    q -= 1
                inner = body[q+1:k-1]
                mi = re.match(r'(.*?)\.\.(?!=)(.*)$', inner, re.S)
                if mi and not re.search(r'(\w!?|>)$', ms[:q]): kind = 'range'; start = q; lo, hi = mi.group(1).strip(), mi.group(2).strip()
                elif not inner.strip():
                    mm = re.search(r'([\w.\[\]&]+?)\s*\.\s*iter\s*\(\)$', ms[:k])
                    if mm and mm.group(1)[0] == '.': mm = re.search(r'(\w+(?:\s*\.\s*\w+)*?)\s*\.\s*iter\s*\(\)$', ms[:k])
                    if mm: kind = 'iter'; start = mm.start(); src = mm.group(1)
            if kind: break
        else:
            return body, done
        e = match(ms, ms.index('(', m.start()))
        op, v = m.group(1), m.group(2)
        E = body[m.end():e].strip()
        end = e + 1; coll = False
        if op in ('filter_map', 'map'):
            c = re.match(r'\s*\.\s*collect\s*(::<[^;]*?>)?\s*\(\)', ms[end:])
            if not c: raise Lost('iterator chain without collect')
            end += c.end(); coll = True
        n += 1
        vn = f'c{n}'
        ty = types[n-1].strip() if n <= len(types) else '_'
        if kind == 'range': pre = f'let mut {vn}_next = {lo}; let {vn}_end = {hi};'; bind = f'let {vn}_i = {vn}_next;'
        else: pre = f'let {vn}_src = &{src}; let mut {vn}_next: usize = 0; let {vn}_end = {vn}_src.len();'; bind = f'let {vn}_i = {vn}_next;'
        item = f'{vn}_i' if kind == 'range' else f'&{vn}_src[{vn}_i]'
        ref = f'let {v} = &{vn}_i;' if op == 'find' and kind == 'range' else f'let {v} = {item};'
        if op in ('all', 'any'):
            g = '' if op == 'all' else '!'
            t = f'{{ let mut {vn} = {"true" if op == "all" else "false"}; {pre} while {g}{vn} && {vn}_next < {vn}_end {{ {bind} {vn}_next = {vn}_next + 1; {ref} let {vn}_t = {{ {E} }}; if {"!" if op == "all" else ""}{vn}_t {{ {vn} = {"false" if op == "all" else "true"}; }} }} {vn} }}'
        elif op == 'find':
            if kind == 'iter': raise Lost('find over a slice')
            t = f'{{ let mut {vn}: Option<{ty}> = None; {pre} while {vn}.is_none() && {vn}_next < {vn}_end {{ {bind} {vn}_next = {vn}_next + 1; {ref} let {vn}_t = {{ {E} }}; if {vn}_t {{ {vn} = Some({vn}_i); }} }} {vn} }}'
        elif op == 'filter_map':
            t = f'{{ let mut {vn}: Vec<{ty}> = Vec::new(); {pre} while {vn}_next < {vn}_end {{ {bind} {vn}_next = {vn}_next + 1; {ref} let {vn}_t = {{ {E} }}; match {vn}_t {{ Some(x) => {{ {vn}.push(x); }} None => {{}} }} }} {vn} }}'
        else:
            t = f'{{ let mut {vn}: Vec<{ty}> = Vec::new(); {pre} while {vn}_next < {vn}_end {{ {bind} {vn}_next = {vn}_next + 1; {ref} let {vn}_t = {{ {E} }}; {vn}.push({vn}_t); }} {vn} }}'
        done.append(' '.join(body[start:end].split()))
        body = body[:start] + t + body[end:]
