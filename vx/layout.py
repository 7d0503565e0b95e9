"""Accounts (E04): every account of the compiler's expansions, with the generated constructor, getters and setters
verbatim, against the layout that its declaration gives."""
import os, re
from . import rsx
from .rsx import Lost
from .codec import _split, _fields, to_semi

SZ = r'<((?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*?)\s+as\s+elusiv_types::bytes::(?:BorshSerDeSized|SizedType)>::SIZE'

def norm(s): return re.sub(r'\s+', ' ', s).strip()

class A: pass

def accounts_of(spec):
    t = rsx.load('expanded:' + spec); ms = rsx.mask(t); out = []
    for m in re.finditer(r'ProgramAccount<[^>]*>\s*for\s+(\w+)', ms):
        x = A(); x.name = m.group(1); x.spec = spec
        d = re.search(r'pub struct ' + x.name + r'\b[^{]*\{', ms)
        if not d: raise Lost(x.name)
        e = rsx.match(ms, d.end() - 1)
        x.fields = _fields(t[d.end():e])
        k = re.compile(r'\{').search(ms, m.end()); x.new = rsx.fn_in(t[k.end():rsx.match(ms, k.start())], 'new', x.name).body
        s = re.search(r'SizedAccount\s+for\s+' + x.name + r'\b[^{]*\{\s*const SIZE:\s*usize\s*=', ms)
        if not s: raise Lost(x.name + ': SIZE')
        x.size = to_semi(t, ms, s.end())
        i = re.compile(r'impl<[^>]*>\s*' + x.name + r'<[^>]*>\s*\{').search(ms, e)
        x.fns = []
        if i:
            ie = rsx.match(ms, i.end() - 1)
            for f in re.finditer(r'\bfn\s+(get|set)_(\w+)\s*\(', ms[i.end():ie]):
                if f.group(2) not in dict(x.fields): continue
                y = rsx.fn_in(t[i.end():ie], f.group(1) + '_' + f.group(2), x.name)
                sig = norm(y.sig)
                if f.group(1) == 'get':
                    g = re.search(r'\(&self(, index: usize)?\)\s*->\s*(.*)$', sig)
                else: g = re.search(r'\(&mut self(, index: usize)?, value: &(.*)\)$', sig)
                if not g: raise Lost(x.name + ': ' + sig)
                x.fns.append((f.group(1), f.group(2), bool(g.group(1)), g.group(2).strip().rstrip(',').strip(), y.body))
        p = re.search(r'ParentAccount<[^{>]*>\s*for\s+' + x.name + r'\b[^{]*\{', ms)
        x.parent = None
        if p:
            pb = t[p.end():rsx.match(ms, p.end() - 1)]
            c = re.search(r'const COUNT:\s*usize\s*=\s*([^;]*);', pb)
            x.parent = (norm(c.group(1)), {n: rsx.fn_in(pb, n, x.name).body for n in ('set_child_accounts', 'set_child_pubkey', 'get_child_pubkey', 'get_child_account_unsafe')})
        out.append(x)
    return out

def declared(x):
    """the sizes of the fields by the types that the source declares (nothing for accounts that a macro declares)"""
    root = {'rac/elusiv': 'elusiv/src', 'racw/elusiv_warden_network': 'elusiv-warden-network/src'}[x.spec]
    for d, _, fs in os.walk(os.path.join(rsx.REPO, root)):
        for f in sorted(fs):
            if not f.endswith('.rs'): continue
            p = os.path.relpath(os.path.join(d, f), rsx.REPO); t = rsx.load(p); ms = rsx.mask(t)
            if not re.search(r'\bpub struct ' + x.name + r'\b[^;{]*\{', ms): continue
            out = {}
            for a, n, ty in rsx.struct_fields(p, 'struct ' + x.name):
                ty = norm(ty); m = re.match(r'\[(.*);\s*(.*)\]$', ty)
                w = lambda q: f'<{q} as elusiv_types::bytes::BorshSerDeSized>::SIZE'
                if 'lazy' in a or "'a" in ty: out[n] = w(ty)
                elif m: out[n] = w(m.group(1).strip()) + ' * (' + m.group(2) + ')'
                else: out[n] = w(ty)
            return out
    return {}

def read_types(u, *specs):
    """over the codec unit: every type that an account's getter decodes has a fixed, small size"""
    o = []
    for sp in specs:
        for x in accounts_of(sp):
            for k, f, arr, ty, b in x.fns:
                ty = norm(ty); ty = re.sub(r'\bTOKENS\.len\(\)', 'TOKENS_LEN', ty)
                if k == 'get' and ty not in o: o.append(ty)
    text = '\n'.join(f'pub proof fn read_{i}() ensures {t}::fixed(), 1 <= {t}::sz() < 0x10_0000 {{ {"assert(false);" if getattr(u, "vac", False) else ""} }} // {t}' if t[0] != '[' and '<' not in t else
                     f'pub proof fn read_{i}() ensures <{t} as Sized_>::fixed(), 1 <= <{t} as Sized_>::sz() < 0x10_0000 {{ {"assert(false);" if getattr(u, "vac", False) else ""} }} // {t}' for i, t in enumerate(o)) + '\n'
    for i, l in enumerate(text.split('\n')[:-1]): u.fns.append((f'{o[i]} (read from accounts)', ['E04'], 'expansion', u.cur + i + 1, u.cur + i + 1))
    return text

def layouts(u, *specs):
    xs = [x for s in specs for x in accounts_of(s)]
    ids = {}; reads = set()
    def tid(ty):
        ty = norm(ty)
        if ty not in ids: ids[ty] = len(ids)
        return ids[ty]
    counts = {}
    def cnt(x, e):
        e = re.sub(r'\bas usize\b', '', norm(e)); e = re.sub(r'\b(crate|super|self)::(\w+::)*', '', e)
        e = re.sub(r'\s+', '', e)
        while e[0] == '(' and rsx.match(e, 0) == len(e) - 1: e = e[1:-1]
        if e.isdigit(): return e, e
        k = counts.setdefault((x.name, e), len(counts))
        return f'count_{k}()', f'c_{k}()'
    def sizes(e, spec=False):
        """a sum of sizes and of sizes times counts"""
        e = norm(e); ms = re.sub(SZ, lambda m: '#' * len(m.group(0)), e); out = []; d = 0; last = 0
        for i, c in enumerate(ms + '+'):
            if c in '(<[': d += 1
            if c in ')>]': d -= 1
            if c == '+' and d == 0: out.append(e[last:i].strip()); last = i + 1
        r = []
        for q in out:
            while q[0] == '(' and rsx.match(q, 0) == len(q) - 1: q = q[1:-1].strip()
            m = re.match(SZ, q)
            if not m: raise Lost('size ' + q)
            t = q[m.end():].strip(); k = tid(m.group(1))
            if not t: r.append(f's_{k}()' if spec else f'size_{k}()'); continue
            if t[0] != '*': raise Lost('size ' + q)
            ce, cs = cnt(cur_x[0], t[1:])
            r.append(f's_{k}() * {cs}' if spec else f'prod(size_{k}(), {ce})')
        return ' + '.join(r)
    o = []; cur_x = [None]
    vac = getattr(u, 'vac', False); V = ' proof { assert(false); } ' if vac else ''
    def fn(name, sig, spec, body):
        o.append(f'    /*@F {name}*/ pub fn {sig} {spec} {{ {body} }}')
    def drop(w):
        if w not in u.dropped: u.dropped.append(w)
    drop('accounts: split_at_mut, indexing of slices and serialization into a slice through functions that abort out of range; lazily loaded parts as their bytes')
    for x in xs:
        cur_x[0] = x; n = x.name; F = []; kids = None
        sp = {}
        # the size of each field, from the constructor
        for f in re.finditer(r'let \((\w+), data\)\s*=\s*data\.split_at_mut\(', x.new):
            k = rsx.mask(x.new); j = f.end() - 1; sp[f.group(1)] = sizes(x.new[j+1:rsx.match(k, j)], True)
        decl = declared(x)
        for f, ty in x.fields:
            if f == 'child_accounts': kids = ty; continue
            raw = 'mut [u8]' in ty
            F.append((f, raw))
            if f not in sp: raise Lost(f'{n}: field {f}')
            if decl.get(f): sp[f] = sizes(decl[f], True)
        par = "<'a, 'b, 't>" if kids else "<'a>"
        o.append(f"pub mod m_{n} {{ use super::*;")
        o.append(f"pub struct {n}{par} {{ " + ("pub child_accounts: Vec<Option<&'b AccountInfo<'t>>>, " if kids else '') + ', '.join(f"pub {f}: " + ("&'a mut [u8]" if raw else "Part<'a>") for f, raw in F) + ' }')
        cur = lambda s, f, raw: f'{s}.v_{f}()'
        fin = lambda s, f, raw: f'final({s}.{f})@' if raw else f'final({s}.{f}.d)@'
        o.append(f'impl{par} {n}{par} {{')
        if x.parent: o.append(f'    pub open spec fn count() -> int {{ {cnt(x, x.parent[0])[1]} as int }}')
        o.append('    pub open spec fn total() -> int { ' + sizes(x.size, True) + ' }')
        for f, raw in F: o.append(f'    pub open spec fn v_{f}(&self) -> Seq<u8> {{ self.{f}{"" if raw else ".d"}@ }}')
        o.append('    /// every field has its size')
        o.append('    pub open spec fn wf(&self) -> bool { ' + ' && '.join(f'{cur("self", f, raw)}.len() == {sp[f]}' for f, raw in F) + ' }')
        b = x.new
        while True:
            f = re.search(r'data\.split_at_mut\(', b)
            if not f: break
            e = rsx.match(rsx.mask(b), f.end() - 1)
            b = b[:f.start()] + 'split(data, ' + sizes(b[f.end():e]) + ')' + b[e+1:]
        b = re.sub(r'<Self as elusiv_types::accounts::SizedAccount>::SIZE', 'Self::total_()', b)
        b = re.sub(r'let (\w+)\s*=\s*<[^;]*?>::new\(\1\);', r'let \1 = Part::new(\1);', b)
        b = re.sub(r'solana_program::program_error::', '', b)
        b = re.sub(r'::alloc::vec::from_elem\(None,\s*<Self as elusiv_types::accounts::ParentAccount>::COUNT\)', 'nones(Self::count_())', b)
        cat = lambda g: ' + '.join(g(f, raw) for f, raw in F)
        asm = ''
        # the rest after each field
        steps = ''
        for f, raw in reversed(F): pass
        o.append(f'    pub fn total_() -> (r: usize) ensures r == Self::total() {{ {sizes(x.size)} }}')
        if x.parent: o.append(f'    pub fn count_() -> (r: usize) ensures r == Self::count() {{ {cnt(x, x.parent[0])[0]} }}')
        if vac: b = f'let r_v: Result<Self, ProgramError> = {{ {b} }}; proof {{ if r_v is Ok {{ assert(false); }} }} r_v'
        tree = lambda g: (lambda r: r(r, 0))(lambda r, i: g(*F[i]) + (f' + ({r(r, i+1)})' if i + 1 < len(F) else ' + Seq::<u8>::empty()'))
        K = ' && r->Ok_0.child_accounts@.len() == Self::count()' if kids else ''
        fn(f'{n}::new', "new(data: &'a mut [u8]) -> (r: Result<Self, ProgramError>)",
           f'ensures r is Ok <==> old(data)@.len() == Self::total(), r is Ok ==> r->Ok_0.wf(){K} && old(data)@ == ' + tree(lambda f, raw: cur('r->Ok_0', f, raw)) + ', r is Ok ==> final(data)@ == ' + tree(lambda f, raw: fin('r->Ok_0', f, raw)) + ', r is Err ==> final(data)@ == old(data)@',
           b)
        for k, f, arr, ty, b in x.fns:
            T = f'V_{tid(ty)}'; s = f's_{tid(ty)}()'
            b = re.sub(SZ, lambda m: f'size_{tid(m.group(1))}()', b, flags=re.S)
            m = re.search(r'\s+as\s+borsh::BorshDeserialize>::try_from_slice\(', b)
            if m:
                j = m.start(); d = 1
                while d: j -= 1; d += (b[j] == '>') - (b[j] == '<')
                if norm(b[j+1:m.start()]) != ty: raise Lost(f'{n}: get_{f} decodes another type')
                b = b[:j] + f'<{T}>::try_from_slice(' + b[m.end():]
            b = b.replace('.unwrap()', '.ok_or_abort()')
            b = re.sub(r'let mut slice\s*=\s*&mut self\.(\w+)\[([^;]*?)\.\.([^;]*?)\];', lambda m: f'let slice = sub_mut(&mut *self.{m.group(1)}, {m.group(2) or "0"}, {m.group(3)});', b, flags=re.S)
            b = re.sub(r'borsh::BorshSerialize::serialize\(value,\s*&mut slice\)\.ok_or_abort\(\);', 'put(value, slice);', b)
            b = re.sub(r'&self\.(\w+)\[([^;]*?)\.\.([^;]*?)\];', lambda m: f'sub(self.{m.group(1)}, {m.group(2)}, {m.group(3)});', b, flags=re.S)
            C = f'self.v_{f}()'
            if k == 'get':
                reads.add(norm(ty))
                if arr: fn(f'{n}::get_{f}', f'get_{f}(&self, index: usize) -> (r: {T})', f'requires index < 0x1_0000_0000 ensures (index + 1) * {s} <= {C}.len(), {T}::de(chunk({C}, index as int, {s})) == Some(r)',
                           (f'proof {{ size_of::<{T}>(); idx(index as int, {s}); }} let r_ = {{ {b} }}; {V} r_'))
                else: fn(f'{n}::get_{f}', f'get_{f}(&self) -> (r: {T})', f'ensures {T}::de({C}) == Some(r)', f'let r_ = {{ {b} }}; {V} r_')
            else:
                same = ''.join(f', final(self).{g} == old(self).{g}' for g, _ in F if g != f)
                if kids: same += ', final(self).child_accounts == old(self).child_accounts'
                same += f', final(final(self).{f})@ == final(old(self).{f})@'
                O = f'old(self).v_{f}()'; N = f'final(self).v_{f}()'
                if arr: fn(f'{n}::set_{f}', f'set_{f}(&mut self, index: usize, value: &{T})',
                           f'requires old(self).wf(), index < 0x1_0000_0000, value.fine() ensures final(self).wf(){same}, (index + 1) * {s} <= {O}.len(), value.ser().len() == {s} ==> chunk({N}, index as int, {s}) == value.ser(), {T}::fixed() ==> {T}::de(chunk({N}, index as int, {s})) == Some(*value), forall|j: int| 0 <= j && j != index && (j + 1) * {s} <= {O}.len() ==> #[trigger] chunk({N}, j, {s}) == chunk({O}, j, {s})',
                           f'proof {{ size_of::<{T}>(); idx(index as int, {s}); value.fits(); }} {b} proof {{ entry({O}, self.v_{f}(), index as int, {s}, value.ser()); }} {V}')
                else: fn(f'{n}::set_{f}', f'set_{f}(&mut self, value: &{T})',
                         f'requires old(self).wf(), value.fine() ensures final(self).wf(){same}, {N} == value.ser() + {O}.skip(value.ser().len() as int), {T}::fixed() ==> {T}::de({N}) == Some(*value)',
                         f'proof {{ value.fits(); }} {b} proof {{ assert(self.v_{f}() =~= value.ser() + {O}.skip(value.ser().len() as int)); if {T}::fixed() {{ assert(self.v_{f}() =~= value.ser()); }} }} {V}')
        if x.parent:
            P = x.parent[1]; cs = cnt(x, x.parent[0])[1]; pos = re.sub(r'^c_(\d+)\(\)$', r'pos_\1();', cs) if cs[0] == 'c' else ''
            kt = next((ty for k, f, arr, ty, b in x.fns if k == 'get' and f == 'pubkeys'), None)
            if kt is None: raise Lost(n + ': pubkeys')
            T = f'V_{tid(kt)}'; s = f's_{tid(kt)}()'; oth = ''.join(f', final(self).{g} == old(self).{g}' for g, _ in F if g != 'pubkeys') + ', final(self).child_accounts == old(self).child_accounts'
            fn(f'{n}::set_child_accounts', "set_child_accounts(parent: &mut Self, child_accounts: Vec<Option<&'b AccountInfo<'t>>>)", 'ensures final(parent).child_accounts == child_accounts' + ''.join(f', final(parent).{g} == old(parent).{g}' for g, _ in F), P['set_child_accounts'] + ';' + V)
            fn(f'{n}::set_child_pubkey', f'set_child_pubkey(&mut self, index: usize, pubkey: {T})', f'requires old(self).wf(), index < 0x1_0000_0000, pubkey.fine() ensures final(self).wf(){oth}, index < Self::count(), {T}::fixed() ==> {T}::de(chunk(final(self).v_pubkeys(), index as int, {s})) == Some(pubkey), forall|j: int| 0 <= j < Self::count() && j != index ==> #[trigger] chunk(final(self).v_pubkeys(), j, {s}) == chunk(old(self).v_pubkeys(), j, {s})', P['set_child_pubkey'] + f'; proof {{ size_of::<{T}>(); {pos} kids({s}, Self::count(), index as int); }}' + V)
            fn(f'{n}::get_child_pubkey', f'get_child_pubkey(&self, index: usize) -> (r: Option<Key>)', f'requires self.wf(), index < 0x1_0000_0000 ensures index < Self::count(), exists|v: {T}| {T}::de(chunk(self.v_pubkeys(), index as int, {s})) == Some(v) && r == #[trigger] v.opt()', f'let r_ = {{ {P["get_child_pubkey"]} }}; proof {{ size_of::<{T}>(); {pos} kids({s}, Self::count(), index as int); }} {V} r_')
            b = P['get_child_account_unsafe'].replace('solana_program::program_error::', '')
            b = re.sub(r'self\.child_accounts\[(\w+)\]', r'*vget(&self.child_accounts, \1)', b)
            fn(f'{n}::get_child_account', "get_child_account(&self, child_index: usize) -> (r: Result<&'b AccountInfo<'t>, ProgramError>)", 'ensures child_index < self.child_accounts@.len(), self.child_accounts@[child_index as int] is Some ==> r == Ok::<_, ProgramError>(self.child_accounts@[child_index as int]->Some_0), self.child_accounts@[child_index as int] is None ==> r is Err', f'let r_ = {{ {b} }}; {V} r_')
        o.append('}'); o.append('}')
    pre = []
    for ty, i in ids.items():
        pre.append(f'/* {ty} */ pub uninterp spec fn s_{i}() -> int; #[verifier::external_body] pub fn size_{i}() -> (r: usize) ensures r == s_{i}(), 1 <= r < 0x10_0000 {{ unimplemented!() }}')
    for i in sorted({int(q) for l in o for q in re.findall(r'\bV_(\d+)\b', l)}):
        pre.append(f'#[verifier::external_body] pub struct V_{i} {{ x: u8 }} impl Stored for V_{i} {{ uninterp spec fn ser(self) -> Seq<u8>; uninterp spec fn de(b: Seq<u8>) -> Option<Self>; uninterp spec fn fine(self) -> bool; uninterp spec fn fixed() -> bool; open spec fn sz() -> int {{ s_{i}() }} #[verifier::external_body] proof fn fits(self) {{ }} #[verifier::external_body] fn try_from_slice(b: &[u8]) -> (r: Result<Self, IoError>) {{ unimplemented!() }} }}')
        pre.append(f'impl V_{i} {{ pub uninterp spec fn opt(self) -> Option<Key>; #[verifier::external_body] pub fn option(self) -> (r: Option<Key>) ensures r == self.opt() {{ unimplemented!() }} }}')
    for (acc, e), k in counts.items():
        pre.append(f'/* {acc}: {e} */ pub uninterp spec fn c_{k}() -> int; #[verifier::external_body] pub fn count_{k}() -> (r: usize) ensures r == c_{k}(), 1 <= r < 0x10_0000 {{ unimplemented!() }} #[verifier::external_body] pub proof fn pos_{k}() ensures 1 <= c_{k}() {{ }}')
    from .codec import register
    text = '\n'.join(pre + o) + '\n'
    return register(u, text, 'E04')
