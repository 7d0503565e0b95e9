"""Derived encodings (E01): every type with a derived BorshSerialize of the compiler's expansions, with the
verbatim derived serialize and deserialize against the encoding that its declaration gives."""
import re
from . import rsx
from .rsx import Lost

def _split(s):
    r = []; d = 0; c = ''
    for i, x in enumerate(s):
        if x in '<([{': d += 1
        if x in '})]' or (x == '>' and not (i and s[i-1] in '-=')): d -= 1
        if x == ',' and d == 0: r.append(c.strip()); c = ''; continue
        c += x
    if c.strip(): r.append(c.strip())
    return r

def _fields(b):
    """fields of a braced body: [(name, type)]"""
    out = []
    for p in _split(b):
        while p.startswith('#['): p = p[rsx.match(rsx.mask(p), 1) + 1:].strip()
        p = re.sub(r'^pub(\s*\([^)]*\))?\s+', '', p)
        a, t = p.split(':', 1); out.append((a.strip(), re.sub(r'\s+', ' ', t.strip())))
    return out

def _tys(b):
    return [re.sub(r'^pub(\s*\([^)]*\))?\s+', '', re.sub(r'\s+', ' ', p)) for p in _split(b)]

def _block_after(t, ms, i):
    j = ms.index('{', i); e = rsx.match(ms, j)
    return t[j+1:e], e

class T: pass

def decls(spec):
    t = rsx.load('expanded:' + spec); ms = rsx.mask(t); out = []
    for m in re.finditer(r'impl\s*(<[^{;]*?>)?\s*borsh::ser::BorshSerialize\s+for\s+([\w:]+)\s*(<[^{;]*?>)?\s*(where[^{]*)?\{', ms):
        x = T(); x.spec = spec
        x.generics = re.sub(r'\s+', ' ', m.group(1) or ''); x.name = m.group(2); x.args = re.sub(r'\s+', ' ', m.group(3) or '')
        if "'" in x.generics: continue
        x.ser = rsx.fn_in(t[m.end():rsx.match(ms, m.end() - 1)], 'serialize', spec).body
        md = re.search(r'borsh::de::BorshDeserialize\s+for\s+' + x.name + r'\b[^{]*\{', ms)
        if not md: continue
        x.de = rsx.fn_in(t[md.end():rsx.match(ms, md.end() - 1)], 'deserialize', spec).body
        d = re.search(r'\b(struct|enum)\s+' + x.name + r'\b\s*(<[^{(;]*>)?\s*([{(;])', ms)
        if not d: raise Lost(x.name + ': no declaration')
        x.kind = d.group(1)
        body = '' if d.group(3) == ';' else t[d.end():rsx.match(ms, d.end() - 1)]
        if x.kind == 'struct':
            x.tuple = d.group(3) == '('
            x.fields = [(str(i), y) for i, y in enumerate(_tys(body))] if x.tuple else _fields(body)
        else:
            x.vars = []
            for p in _split(body):
                while p.startswith('#['): p = p[rsx.match(rsx.mask(p), 1) + 1:].strip()
                n = re.match(r'\w+', p).group(0); r = p[len(n):].strip()
                if r.startswith('{'): x.vars.append((n, '{', _fields(r[1:-1])))
                elif r.startswith('('): x.vars.append((n, '(', [(str(i), y) for i, y in enumerate(_tys(r[1:-1]))]))
                else: x.vars.append((n, '', []))
        out.append(x)
    return out

def to_semi(t, ms, i):
    j = i
    while ms[j] != ';': j = rsx.match(ms, j) + 1 if ms[j] in '([{' else j + 1
    return re.sub(r'\s+', ' ', t[i:j]).strip()

def size_of(spec, name):
    """the SIZE expression of a type, or None"""
    t = rsx.load('expanded:' + spec)
    ms = rsx.mask(t)
    m = re.search(r'BorshSerDeSized\s+for\s+' + name + r'\s*(?:<[^{;]*?>)?\s*\{\s*const SIZE:\s*usize\s*=', ms)
    if not m: return None
    return to_semi(t, ms, m.end())

def spec_size(e):
    """the SIZE expression over sz()"""
    e = re.sub(r'elusiv_types::bytes::(?=max\b)', '', e)
    e = re.sub(r'<([^<>]+|[^<>]*<[^<>]*>)\s+as\s+[\w:]*BorshSerDeSized>::SIZE', r'<\1>::SIZE', e)
    def q(m): return '<' + m.group(1) + '>::sz()'
    e = re.sub(r'(?<![\w>])([A-Z]\w*|u\d+|bool)::SIZE\b', q, e)
    e = re.sub(r'>::SIZE\b', '>::sz()', e)
    if 'SIZE' in re.sub(r'\w+_SIZE|SIZE_\w+', '', e): raise Lost('size ' + e)
    return e

def body_of(u, b):
    """the derived body over the traits of the unit; each rewrite recorded"""
    for a, r, why in ((r'borsh::Borsh(Serialize|Deserialize)::', 'Codec::', 'the traits of borsh'), (r'&variant_idx\.to_le_bytes\(\)', 'le_bytes(variant_idx)', 'to_le_bytes of one byte'),
                      (r'_ => \{\s*let msg =.*?return Err\(borsh::maybestd::io::Error::new\(.*?\)\);\s*\}', '_ => { return Err(IoError::new()) }', 'error texts')):
        n = re.sub(a, r, b, flags=re.S)
        if n != b:
            if why not in u.dropped: u.dropped.append('derived encodings: ' + why)
            b = n
    return b

def pat(path, kind, names):
    if kind == '{': return path + ' { ' + ', '.join(f'{f}: {v}' if f != v else f for f, v in names) + ' }'
    if kind == '(': return path + '(' + ', '.join(v for _, v in names) + ')'
    return path

def conj(xs): return ' && '.join(xs) if xs else 'true'
def cat(xs):
    if not xs: return 'Seq::<u8>::empty()'
    return xs[0] if len(xs) == 1 else f'{xs[0]} + ({cat(xs[1:])})'
def add(xs):
    if not xs: return '0int'
    return xs[0] if len(xs) == 1 else f'{xs[0]} + ({add(xs[1:])})'

def de_chain(ctor, fs, src, first=None):
    """decode the fields of types fs from src one after the other"""
    if not fs and first is None: return f'Some(({ctor}, 0int))'
    o = ''; end = ''; b = src
    for i, (f, ty) in enumerate(fs):
        o += f'match <{ty}>::de({b}) {{ None => None, Some((x{i}, n{i})) => {{ let b{i+1} = {b}.skip(n{i}); '; end += ' } }'; b = f'b{i+1}'
    ns = ([first] if first else []) + [f'n{i}' for i in range(len(fs))]
    return o + f'Some(({ctor}, {add(ns)}))' + end

def used_chain(fs, src, fn):
    o = ''; end = ''; b = src
    for i, (f, ty) in enumerate(fs):
        o += f'{fn(ty, b, i)} if <{ty}>::de({b}) is Some {{ let n{i} = <{ty}>::de({b})->Some_0.1; let b{i+1} = {b}.skip(n{i}); '; end += ' }'; b = f'b{i+1}'
    return o + end

def outline(u, x):
    """the arms of a derived serialize and deserialize that carry fields, each moved to a function of its own;
    x.de and x.ser call them. Returns the bodies by variant."""
    dec = {}; enc = {}
    b = body_of(u, x.de); ms = rsx.mask(b)
    m = re.search(r'match variant_idx\s*\{', ms)
    if not m: raise Lost(x.name + ': no match of the variant')
    e = rsx.match(ms, m.end() - 1); arms = []
    for arm in _split(b[m.end():e]):
        k = re.match(r'(\d+)u8\s*=>\s*(.*)$', arm, re.S)
        if k and '(' in k.group(2): dec[int(k.group(1))] = k.group(2).strip(); arms.append(f'{k.group(1)}u8 => Self::der_{k.group(1)}(buf)?,')
        else: arms.append(arm + ',')
    if any(i >= len(x.vars) for i in dec): raise Lost(x.name + ': variants')
    x.de = b[:m.end()] + ' '.join(arms) + b[e:]
    b = body_of(u, x.ser); ms = rsx.mask(b)
    m = re.search(r'match self\s*\{', ms[ms.find('write_all'):])
    if m:
        st = ms.find('write_all') + m.end(); e = rsx.match(ms, st - 1); i = st; arms = []
        names = [n for n, _, _ in x.vars]
        while True:
            j = ms.find('=>', i, e)
            if j < 0: break
            pt = b[i:j].strip().lstrip(',').strip(); k = ms.index('{', j); z = rsx.match(ms, k); body = b[k+1:z]
            q = re.match(x.name + r'\s*::\s*(\w+)\s*(.*)$', pt, re.S)
            vi = names.index(q.group(1)); fs = x.vars[vi][2]; inner = q.group(2).strip()
            if body.strip() and fs:
                bs = _split(inner[1:-1]); nm = []
                for y in bs:
                    f, _, v = y.partition(':'); v = v.strip() or f.strip()
                    nm.append((v, f.strip()) if inner[0] == '{' else (y, None))
                by = {f: t for f, t in fs}
                if inner[0] == '{':
                    pos = {f: v for v, f in nm}
                    if set(pos) != set(by): raise Lost(x.name + ': arm ' + q.group(1))
                    nm = [(pos[f], t) for f, t in fs]
                else: nm = [(y, fs[a][1]) for a, (y, _) in enumerate(nm)]
                enc[vi] = (nm, body); arms.append(f'{pt} => {{ Self::serw_{vi}({", ".join(y for y, _ in nm)}, writer)?; }}')
            else: arms.append(f'{pt} => {{ {body} }}')
            i = z + 1
        x.ser = b[:st] + ' '.join(arms) + b[e:]
    if 'derived encodings: arms that carry fields moved to functions of their own' not in u.dropped: u.dropped.append('derived encodings: arms that carry fields moved to functions of their own')
    return dec, enc

def skip_chain(fs, src):
    """the bytes left after the fields of src are those after the sum of what each takes"""
    o = ''; end = ''; b = src; k = len(fs)
    for i, (f, ty) in enumerate(fs):
        o += f'<{ty}>::used({b}); if <{ty}>::de({b}) is Some {{ let n{i} = <{ty}>::de({b})->Some_0.1; let b{i+1} = {b}.skip(n{i}); '; end += ' }'; b = f'b{i+1}'
    o += f'let m{k} = 0int; b_zero(b{k}); ' if k else ''
    for i in reversed(range(k)):
        bi = f'b{i}' if i else src
        o += f'let m{i} = ' + (f'n{i} + m{i+1}' if i < k - 1 else f'n{i}') + '; ' + (f'b_skip({bi}, n{i}, m{i+1}); ' if i < k - 1 else '')
    return o + end

def emit(u, x, fine, sizes):
    o = []; nm = x.name + x.args
    impl = f'impl{x.generics}'
    vac = getattr(u, 'vac', False); OP = '#[verifier::opaque] ' if x.ser is not None or not x.generics else ''
    if x.kind == 'struct':
        fs = x.fields
        o.append(f'pub struct {x.name}{x.generics} ' + ('(' + ', '.join('pub ' + t for _, t in fs) + ');' if x.tuple else '{ ' + ', '.join(f'pub {f}: {t}' for f, t in fs) + ' }'))
        S = [f'self.{f}' for f, _ in fs]
        ctor = pat(x.name, '(' if x.tuple else '{', [(f, f'x{i}') for i, (f, _) in enumerate(fs)])
        R = f'reveal({x.name}::enc_); reveal({x.name}::ser_); reveal({x.name}::de_);' if OP else ''
        o.append(f'{impl} {nm} {{')
        o.append(f'    {OP}' + 'pub open spec fn enc_(self) -> bool { ' + conj([f'{s}.enc()' for s in S]) + ' }')
        o.append(f'    {OP}' + 'pub open spec fn ser_(self) -> Seq<u8> { ' + cat([f'{s}.ser()' for s in S]) + ' }')
        o.append(f'    {OP}' + 'pub open spec fn de_(b: Seq<u8>) -> Option<(Self, int)> { ' + de_chain(ctor, fs, 'b') + ' }')
        o.append('}')
        o.append(f'{impl} Enc for {nm} {{')
        o.append('    open spec fn enc(self) -> bool { self.enc_() } open spec fn ser(self) -> Seq<u8> { self.ser_() } open spec fn de(b: Seq<u8>) -> Option<(Self, int)> { Self::de_(b) }')
        r = f'let r{len(fs)} = rest; '
        for i in reversed(range(len(fs))): r += f'let r{i} = {S[i]}.ser() + r{i+1}; '
        r += ' '.join(f'{S[i]}.round(r{i+1});' for i in range(len(fs)))
        o.append('    proof fn round(self, rest: Seq<u8>) { ' + R + ' broadcast use b_assoc, b_drop; ' + r + ' assert(self.ser() + rest =~= r0); }')
        o.append('    proof fn used(b: Seq<u8>) { ' + R + used_chain(fs, 'b', lambda t, b, i: f'<{t}>::used({b});') + ' }')
        o.append('    proof fn local(b: Seq<u8>, t: Seq<u8>) { ' + R + ' broadcast use b_ext; ' + used_chain(fs, 'b', lambda t, b, i: f'<{t}>::used({b}); if <{t}>::de({b}) is Some {{ <{t}>::local({b}, t); }}') + ' }')
    else:
        decl = ', '.join(n + (' { ' + ', '.join(f'{f}: {t}' for f, t in fs) + ' }' if k == '{' else '(' + ', '.join(t for _, t in fs) + ')' if k == '(' else '') for n, k, fs in x.vars)
        o.append(f'pub enum {x.name}{x.generics} {{ {decl} }}')
        v = lambda n, k, fs: pat(f'{x.name}::{n}', k, [(f, f'y{i}') for i, (f, _) in enumerate(fs)])
        ys = lambda fs: ', '.join(f'y{j}' for j in range(len(fs)))
        yp = lambda fs: ', '.join(f'y{j}: {t}' for j, (_, t) in enumerate(fs))
        args = lambda fs, more: ', '.join(y for y in (ys(fs), more) if y)
        dec, enc = outline(u, x)
        o.append(f'{impl} {nm} {{')
        for i, (n, k, fs) in enumerate(x.vars):
            ctor = pat(f'{x.name}::{n}', k, [(f, f'x{j}') for j, (f, _) in enumerate(fs)])
            o.append(f'    #[verifier::opaque] pub open spec fn de_{i}(b: Seq<u8>) -> Option<(Self, int)> {{ ' + de_chain(ctor, fs, 'b') + ' }')
            o.append(f'    #[verifier::opaque] pub open spec fn ser_{i}({yp(fs)}) -> Seq<u8> {{ ' + cat([f'y{j}.ser()' for j in range(len(fs))]) + ' }')
            o.append(f'    pub open spec fn enc_{i}({yp(fs)}) -> bool {{ ' + conj([f'y{j}.enc()' for j in range(len(fs))]) + ' }')
            r = f'let r{len(fs)} = rest; '
            for j in reversed(range(len(fs))): r += f'let r{j} = y{j}.ser() + r{j+1}; '
            r += ' '.join(f'y{j}.round(r{j+1});' for j in range(len(fs)))
            pp = ', '.join(y for y in (yp(fs), 'rest: Seq<u8>') if y)
            o.append(f'    pub proof fn round_{i}({pp}) requires Self::enc_{i}({ys(fs)}) ensures Self::de_{i}(Self::ser_{i}({ys(fs)}) + rest) == Some(({v(n, k, fs)}, Self::ser_{i}({ys(fs)}).len() as int)) {{ broadcast use b_assoc, b_drop; reveal({x.name}::de_{i}); reveal({x.name}::ser_{i}); {r} assert(Self::ser_{i}({ys(fs)}) + rest =~= r0); }}')
            o.append(f'    pub proof fn used_{i}(b: Seq<u8>) ensures Self::de_{i}(b) is Some ==> 0 <= Self::de_{i}(b)->Some_0.1 <= b.len() {{ reveal({x.name}::de_{i}); ' + used_chain(fs, 'b', lambda t, b, i: f'<{t}>::used({b});') + ' }')
            o.append(f'    pub proof fn local_{i}(b: Seq<u8>, t: Seq<u8>) requires Self::de_{i}(b) is Some ensures Self::de_{i}(b + t) == Self::de_{i}(b) {{ reveal({x.name}::de_{i}); broadcast use b_ext; ' + used_chain(fs, 'b', lambda t, b, i: f'<{t}>::used({b}); if <{t}>::de({b}) is Some {{ <{t}>::local({b}, t); }}') + ' }')
            if i in dec:
                e = dec[i]
                if vac: e = f'{{ let x_v = {e}; proof {{ assert(false); }} x_v }}'
                o.append(f'    /*@F {x.name}::deserialize({n})*/ fn der_{i}(buf: &mut &[u8]) -> (r: Result<Self, IoError>) ensures r is Ok <==> Self::de_{i}(old(buf)@) is Some, r is Ok ==> r->Ok_0 == Self::de_{i}(old(buf)@)->Some_0.0 && (*final(buf))@ == old(buf)@.skip(Self::de_{i}(old(buf)@)->Some_0.1) {{ proof {{ let b = buf@; reveal({x.name}::de_{i}); {skip_chain(fs, 'b')} }} Ok({e}) }}')
            if i in enc:
                names, body = enc[i]
                ty = dict(fs)
                pr = ', '.join(f'{bn}: &{t}' for bn, t in names)
                dr = ', '.join(f'*{bn}' for bn, t in names)
                e = (' proof { assert(false); } ' if vac else '')
                o.append(f'    /*@F {x.name}::serialize({n})*/ fn serw_{i}<W: Write>({pr}, writer: &mut W) -> (r: Result<(), IoError>) requires Self::enc_{i}({dr}) ensures r is Ok ==> final(writer).out() == old(writer).out() + Self::ser_{i}({dr}) {{ proof {{ broadcast use b_assoc; reveal({x.name}::ser_{i}); }} {body} {e} Ok(()) }}')
        R = f'reveal({x.name}::enc_); reveal({x.name}::ser_); reveal({x.name}::de_);' if OP else ''
        arms = lambda g: ' '.join(f'{v(n, k, fs)} => {g(i, n, k, fs)},' for i, (n, k, fs) in enumerate(x.vars))
        o.append(f'    {OP}' + 'pub open spec fn enc_(self) -> bool { match self { ' + arms(lambda i, n, k, fs: f'Self::enc_{i}({ys(fs)})') + ' } }')
        o.append(f'    {OP}' + 'pub open spec fn ser_(self) -> Seq<u8> { match self { ' + arms(lambda i, n, k, fs: f'{i}u8.ser() + Self::ser_{i}({ys(fs)})') + ' } }')
        o.append(f'    {OP}' + 'pub open spec fn de_(b: Seq<u8>) -> Option<(Self, int)> { match u8::de(b) { None => None, Some((t, k)) => { let c = b.skip(k); ' + ' else '.join(f'if t == {i} {{ match Self::de_{i}(c) {{ None => None, Some((x, n)) => Some((x, k + n)) }} }}' for i in range(len(x.vars))) + ' else { None } } } }')
        o.append('}')
        o.append(f'{impl} Enc for {nm} {{')
        o.append('    open spec fn enc(self) -> bool { self.enc_() } open spec fn ser(self) -> Seq<u8> { self.ser_() } open spec fn de(b: Seq<u8>) -> Option<(Self, int)> { Self::de_(b) }')
        o.append('    proof fn round(self, rest: Seq<u8>) { ' + R + ' broadcast use b_assoc, b_drop; match self { ' + arms(lambda i, n, k, fs: f'{{ let p = Self::ser_{i}({ys(fs)}); {i}u8.round(p + rest); Self::round_{i}({args(fs, "rest")}); }}') + ' } }')
        o.append('    proof fn used(b: Seq<u8>) { ' + R + ' u8::used(b); if u8::de(b) is Some { let c = b.skip(1); let t = u8::de(b)->Some_0.0; ' + ' else '.join(f'if t == {i} {{ Self::used_{i}(c); }}' for i in range(len(x.vars))) + ' } }')
        o.append('    proof fn local(b: Seq<u8>, t: Seq<u8>) { ' + R + ' broadcast use b_ext; u8::used(b); u8::local(b, t); let c = b.skip(1); let g = u8::de(b)->Some_0.0; ' + ' else '.join(f'if g == {i} {{ Self::local_{i}(c, t); }}' for i in range(len(x.vars))) + ' }')
    if x.ser is None:
        o.append('}')
        if x.generics: return o
        sz = x.declared and size_of(x.spec, x.name)
        return o + sized(u, x, nm, impl, fine, spec_size(sz) if sz else ' + '.join(f'<{t}>::sz()' for _, t in x.fields))
    o.append('}')
    cg = re.sub(r'\bEnc\b', 'Codec', impl)
    o.append(f'{cg} Codec for {nm} {{')
    for f, sig, top, body in (('serialize', 'fn serialize<W: Write>(&self, writer: &mut W) -> (r: Result<(), IoError>)', 'broadcast use b_assoc;', x.ser), ('deserialize', 'fn deserialize(buf: &mut &[u8]) -> (r: Result<Self, IoError>)', ('let b = buf@; ' + R + skip_chain(x.fields, 'b')) if x.kind == 'struct' else 'let b = buf@; ' + R + ' u8::used(b); if u8::de(b) is Some { let c = b.skip(1); let t = u8::de(b)->Some_0.0; b_zero(c); ' + ' else '.join(f'if t == {i} {{ ' + (f'reveal({x.name}::de_{i});' if not fs else '') + f' Self::used_{i}(c); if Self::de_{i}(c) is Some {{ b_skip(b, 1, Self::de_{i}(c)->Some_0.1); }} }}' for i, (_, _, fs) in enumerate(x.vars)) + ' }', x.de)):
        body = body_of(u, body)
        if x.kind == 'enum': top += ' ' + ' '.join(f'reveal({x.name}::ser_{i}); reveal({x.name}::de_{i});' for i, (_, _, fs) in enumerate(x.vars) if not fs)
        if vac: body = f' let r_v: Result<_, IoError> = {{ {body} }}; proof {{ if r_v is Ok {{ assert(false); }} }} r_v '
        o.append(f'    /*@F {x.name}::{f}*/ {sig} {{ proof {{ {top} {R} }} {body} }}')
    o.append('}')
    sz = size_of(x.spec, x.name)
    return o + (sized(u, x, nm, impl, fine, spec_size(sz) ) if sz else [])

def sized(u, x, nm, impl, fine, sz):
    o = []; V = ' assert(false); ' if getattr(u, 'vac', False) else ''; R = f'reveal({x.name}::enc_); reveal({x.name}::ser_);' if x.ser is not None or not x.generics else ''
    v = lambda n, k, fs: pat(f'{x.name}::{n}', k, [(f, f'y{i}') for i, (f, _) in enumerate(fs)])
    if x.kind == 'struct': S = [f'self.{f}' for f, _ in x.fields]
    else: arms = lambda g: ' '.join(f'{v(n, k, fs)} => {g(i, n, k, fs)},' for i, (n, k, fs) in enumerate(x.vars))
    o.append(f'/*@F {x.name}::SIZE*/ {impl} Sized_ for {nm} {{')
    o.append('    open spec fn sz() -> int { ' + sz + ' }')
    if x.name in fine:
        o.append('    ' + (re.sub(r'(proof fn fits\(self\) \{)', r'\1 assert(false);', fine[x.name]) if V else fine[x.name]))
    elif x.kind == 'struct':
        ts = [t for _, t in x.fields]
        o.append('    open spec fn fixed() -> bool { ' + conj([f'<{t}>::fixed()' for t in ts]) + ' }')
        o.append('    open spec fn fine(self) -> bool { ' + conj([f'{s}.fine()' for s in S]) + ' }')
        o.append('    proof fn fits(self) { ' + R + ' '.join(f'{s}.fits();' for s in S) + V + ' }')
        o.append('    proof fn nonneg() { ' + ' '.join(f'<{t}>::nonneg();' for t in ts) + ' }')
    else:
        o.append('    open spec fn fixed() -> bool { ' + ('false' if any(fs for _, _, fs in x.vars) else 'true') + ' }')
        o.append('    open spec fn fine(self) -> bool { match self { ' + arms(lambda i, n, k, fs: conj([f'y{j}.fine()' for j in range(len(fs))])) + ' } }')
        o.append('    proof fn fits(self) { ' + R + ' Self::nonneg(); ' + ' '.join(f'le_axiom({i}, 1);' for i in range(len(x.vars))) + ' match self { ' + arms(lambda i, n, k, fs: f'{{ reveal({x.name}::ser_{i}); ' + ' '.join(f'y{j}.fits();' for j in range(len(fs))) + ' }') + ' }' + V + ' }')
        o.append('    proof fn nonneg() { ' + ' '.join(f'<{t}>::nonneg();' for t in sorted({t for _, _, fs in x.vars for _, t in fs})) + ' }')
    o.append('}')
    return o

PRIM = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16}
def register(u, text, prop='E01'):
    """the functions marked /*@F name*/: each up to the next mark or the end of its impl"""
    ls = text.split('\n'); cur = None
    for i, l in enumerate(ls):
        m = re.search(r'/\*@F (\S+?)\*/', l)
        if (m or l.startswith('}')) and cur: u.fns.append((cur[0], [prop], 'expansion', u.cur + cur[1] + 1, u.cur + i + (0 if m else 1))); cur = None
        if m:
            if l.rstrip().endswith('} }') and l.startswith('/*@F'): u.fns.append((m.group(1), [prop], 'expansion', u.cur + i + 1, u.cur + i + 1))
            else: cur = (m.group(1), i)
    return text

def enc_models(u, file, spec):
    """encodings of plain data: `struct ...` models of types of dependencies, `@struct Name` declarations of the crate"""
    import os
    o = []; t = rsx.load('expanded:' + spec); ms = rsx.mask(t)
    for l in open(os.path.join(os.path.dirname(__file__), 'units', file)):
        l = l.split('#')[0].strip()
        if not l: continue
        declared = l[0] == '@'
        if declared:
            m = re.search(r'\b' + r'\s+'.join(l[1:].split()) + r'\b\s*(<[^{(;]*>)?\s*([{(])', ms)
            if not m: raise Lost(l)
            l = t[m.start():rsx.match(ms, m.end() - 1) + 1]
        x = T(); x.spec = spec; x.declared = declared; x.kind = 'struct'; x.args = ''; x.ser = None
        m = re.match(r'struct (\w+)\s*(<[^>]*>)?\s*([({])', l); x.name = m.group(1); x.generics = ''; x.tuple = m.group(3) == '('
        if m.group(2): x.generics = '<N: Enc>'; x.args = '<N>'
        b = l[m.end():-1]
        x.fields = [(str(i), y) for i, y in enumerate(_tys(b))] if x.tuple else _fields(b)
        o.append('#[derive(Clone, Copy)]'); o += emit(u, x, {}, None)
        if x.generics:
            for m in re.finditer(r'BorshSerDeSized\s+for\s+(' + x.name + r'<(\w+)>)\s*\{', ms):
                o.append(f'/*@F {m.group(1)}::SIZE*/ impl Sized_ for {m.group(1)} {{ open spec fn sz() -> int {{ {spec_size(size_of(spec, m.group(1)))} }} open spec fn fixed() -> bool {{ true }} open spec fn fine(self) -> bool {{ true }} proof fn fits(self) {{ self.0.fits(); {'assert(false);' if getattr(u, 'vac', False) else ''} }} proof fn nonneg() {{ {m.group(2)}::nonneg(); }} }}')
    return register(u, '\n'.join(o) + '\n')

def size_line(u, spec, name):
    """the declared size of one type"""
    e = size_of(spec, name)
    if e is None: raise Lost(name + ': no size')
    return '    open spec fn sz() -> int { ' + spec_size(e) + ' }\n'

def array_size(u, spec):
    """the declared size of [E; N]"""
    t = rsx.load('expanded:' + spec); ms = rsx.mask(t)
    m = re.search(r'BorshSerDeSized\s+for\s+\[E; N\]\s*\{\s*const SIZE:\s*usize\s*=', ms)
    if not m: raise Lost('arrays: no size')
    return '    open spec fn sz() -> int { ' + spec_size(to_semi(t, ms, m.end())) + ' }\n'

def codecs(u, fine_file, *specs):
    """all derived encodings of the crates; fine_file: the members of Sized_ of types whose declared size holds for some values only"""
    import os
    fine = {}; cur = None
    for l in open(os.path.join(os.path.dirname(__file__), 'units', fine_file)):
        m = re.match(r'== (\w+)', l)
        if m: cur = m.group(1); fine[cur] = ''
        elif cur: fine[cur] += '    ' + l.rstrip() + '\n'
    xs = []; skip = set()
    for s in specs:
        s, *no = s.split('!'); skip |= set(no)
        xs += [x for x in decls(s) if x.name not in no]
    o = []; names = {x.name for x in xs}
    # sizes of the types of borsh and solana
    tt = rsx.load('expanded:' + specs[0].split('!')[0])
    for t in list(PRIM) + ['bool', 'Pubkey', 'Ipv4Addr', r'\(\)']:
        e = size_of(specs[0].split('!')[0], t if t != 'Ipv4Addr' else 'std::net::Ipv4Addr')
        if e is None: raise Lost(t + ': no size')
        ty = '()' if t == r'\(\)' else t
        pf = f'le_axiom(self as int, {PRIM[t]});' if t in PRIM else 'arr_same(self.b); fits_all::<u8>(self.b@); u8::nonneg();' if t in ('Pubkey', 'Ipv4Addr') else ''
        o.append(f'/*@F {ty}::SIZE*/ impl Sized_ for {ty} {{ open spec fn sz() -> int {{ {e} }} open spec fn fixed() -> bool {{ true }} open spec fn fine(self) -> bool {{ true }} proof fn fits(self) {{ {pf} {'assert(false);' if getattr(u, 'vac', False) else ''} }} proof fn nonneg() {{ }} }}')
    for x in xs: o += [f'pub mod m_{x.name} {{ use super::*;'] + emit(u, x, fine, None) + [f'}} pub use m_{x.name}::*;']
    # aliases and constants that the declarations name
    if any('TOKENS.len()' in l for l in o):
        m = re.search(r'TOKENS:\s*\[[^;\]]*;\s*([\d_]+)', tt) or re.search(r'TOKENS:[^=]*=\s*&?\[', tt)
        if not m: raise Lost('TOKENS')
        n = m.group(1) if m.lastindex else len(_split(tt[m.end():rsx.match(rsx.mask(tt), m.end() - 1)]))
        o = [l.replace('TOKENS.len()', 'TOKENS_LEN') for l in o] + [f'pub const TOKENS_LEN: usize = {n};']
    text = '\n'.join(o); done = set(names) | {'SIZE'}
    while True:
        new = []
        for w in sorted(set(re.findall(r'\b[A-Z]\w+\b', text)) - done):
            done.add(w)
            for s in specs:
                t = rsx.load('expanded:' + s.split('!')[0])
                ms = rsx.mask(t)
                m = re.search(r'\btype ' + w + r'\s*=', ms)
                if m: new.append(f'pub type {w} = {to_semi(t, ms, m.end())};'); break
                m = re.search(r'\bconst ' + w + r':\s*usize\s*=', ms)
                if m and w == w.upper(): new.append(f'pub const {w}: usize = {to_semi(t, ms, m.end())};'); break
        if not new: break
        o += new; text = '\n'.join(new)
    return register(u, '\n'.join(o) + '\n')
