"""Computed parts of the units: data models generated from the real type definitions."""
import re, os
from . import rsx
from .rsx import Lost

from .codec import codecs, enc_models, size_line, array_size
from .layout import layouts, read_types

def errors(u):
    t = rsx.source('elusiv/src/error.rs')
    b = rsx.block(t, 'enum ElusivError').body
    vs = [re.sub(r'#\[[^\]]*\]', '', v).strip() for v in b.split(',')]
    vs = [re.match(r'\w+', v).group(0) for v in vs if v]
    u.assumed.append('ProgramError/ElusivError: only the identity of the error is modelled; From<ElusivError> for ProgramError is trusted to be total')
    return ('#[derive(PartialEq, Eq, Clone, Copy, Structural)]\npub enum ElusivError { ' + ', '.join(vs) + ' }\n'
            'pub enum ProgramError { Elusiv(ElusivError), InvalidAccountData, InvalidArgument, InvalidInstructionData, IncorrectProgramId, AccountNotRentExempt, InvalidSeeds, AccountBorrowFailed, InvalidAccountOwner, MissingRequiredSignature, AccountAlreadyInitialized, UninitializedAccount, NotEnoughAccountKeys, IllegalOwner, AccountDataTooSmall, InsufficientFunds, MaxSeedLengthExceeded, UnsupportedSysvar, MaxAccountsDataSizeExceeded, InvalidRealloc, Custom(u32), Other(u32) }\n'
            'impl From<ElusivError> for ProgramError { #[verifier::external_body] fn from(e: ElusivError) -> (r: Self) ensures r == ProgramError::Elusiv(e) { ProgramError::Elusiv(e) } }\n'
            'impl From<TokenError> for ProgramError { #[verifier::external_body] fn from(e: TokenError) -> (r: Self) { ProgramError::Other(e as u32) } }\n'
            '#[derive(PartialEq, Eq, Clone, Copy, Structural)]\npub enum TokenError { MismatchedTokenID, Underflow, Overflow, InvalidTokenID, InvalidAmount, PriceError, InvalidPriceAccount, Other }\n'
            'pub type ProgramResult = Result<(), ProgramError>;\n')

def accessors(u, path, header, name=None, types=None, extra='', skip=()):
    """Model of an #[elusiv_account] struct: its fields in declaration order with the accessors
    the derive macro generates (get_x/set_x; array fields take an index and abort out of range)."""
    types = types or {}
    fs = [(a, n, types.get(n, t)) for a, n, t in rsx.struct_fields(path, header) if n not in skip and 'PDAAccountData' not in t]
    return model(u, name or re.search(r'struct (\w+)', header).group(1), fs, extra)

def model(u, name, fs, extra=''):
    u.assumed.append(f'{name}: generated account accessors (shared/elusiv-proc-macros elusiv_account) read and write exactly their own field: proved of the expansion under E04, and checked at run time')
    o = [f'pub struct {name} {{']
    o += [f'    pub {n}: {t},' for _, n, t in fs]
    o += [extra, '}', f'impl {name} {{']
    for a, n, t in fs:
        m = re.match(r'\[\s*(.+);\s*(.+)\]$', t, re.S)
        if m:
            e, ln = m.groups()
            if 'no_getter' not in a or True:
                o.append(f'    #[verifier::external_body] pub fn get_{n}(&self, i: usize) -> (r: {e}) ensures i < self.{n}@.len(), r == self.{n}@[i as int] {{ unimplemented!() }}')
            o.append(f'    #[verifier::external_body] pub fn set_{n}(&mut self, i: usize, v: &{e}) ensures i < old(self).{n}@.len(), final(self).{n}@ == old(self).{n}@.update(i as int, *v), *final(self) == ({name} {{ {n}: final(self).{n}, ..*old(self) }}) {{ unimplemented!() }}')
        else:
            o.append(f'    #[verifier::external_body] pub fn get_{n}(&self) -> (r: {t}) ensures r == self.{n} {{ unimplemented!() }}')
            o.append(f'    #[verifier::external_body] pub fn set_{n}(&mut self, v: &{t}) ensures *final(self) == ({name} {{ {n}: *v, ..*old(self) }}) {{ unimplemented!() }}')
    o.append('}')
    return '\n'.join(o) + '\n'

def queue_instances(u, real=None):
    """every queue_account!(..) of the program: its RingQueue impl, with the real bodies"""
    o = []
    for path in ('elusiv/src/state/commitment.rs', 'elusiv/src/state/metadata.rs'):
        t = rsx.load(path); ms = rsx.mask(t)
        for m in re.finditer(r'queue_account!\s*([({])', ms):
            args = rsx.split_args(t[m.end():rsx.match(ms, m.end() - 1)])
            idn, acc, size, ty = args
            arm = rsx.expand_macro('elusiv/src/state/queue.rs', 'queue_account', path, idn)
            fs = rsx.fields_of(rsx.block(rsx.cut_tests(arm), 'pub struct ' + acc).body)
            elt = args[3].replace('crate::types::', '') if real else f'Elem{idn}'
            sz = {'COMMITMENT_QUEUE_LEN': 'QLEN'}.get(size, size)
            fs = [(a, n, re.sub(r'\[\s*.*?;\s*\(?.*\)?\]', f'[{elt}; {idn}_SIZE as usize]', ty2)) for a, n, ty2 in fs if 'PDAAccountData' not in ty2]
            blk = rsx.block(arm, "impl<'a, 'b> crate::state::queue::RingQueue for " + idn)
            cap = re.search(r'const\s+CAPACITY\s*:\s*u32\s*=\s*([^;]+);', blk.body)
            if not cap: raise Lost(path + ': no CAPACITY')
            szv = const_eval(path, size)
            o.append(f'pub const {idn}_SIZE: u32 = {szv};')
            if not real: o.append(f'#[verifier::external_body] pub struct Elem{idn} {{ x: u8 }}')
            o.append(f'impl Eqv for {elt} {{ #[verifier::external_body] fn eqv(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}')
            o.append(model(u, acc, fs))
            o.append(f'pub struct {idn} {{ pub account: {acc} }}')
            capx = cap.group(1).replace(size, idn + '_SIZE')
            o.append(f'impl RingBase for {idn} {{ type N = {elt}; const CAPACITY: u32 = {capx}; const SIZE: u32 = ({capx}) + 1;')
            o.append('open spec fn h(&self) -> int { self.account.head as int } open spec fn t(&self) -> int { self.account.tail as int } open spec fn d(&self) -> Seq<Self::N> { self.account.raw_data@ }')
            o.append('proof fn lem(&self) {}')
            for f in ('get_head', 'set_head', 'get_tail', 'set_tail', 'get_data', 'set_data'):
                g = rsx.fn_in(blk.body, f, path)
                o.append(g.sig + '{' + g.body + '}')
            o.append('}')
            o.append(f'impl RingQueue for {idn} {{}}')
    u.dropped.append('queue_account!: lifetimes and the account reference of the generated structs')
    return '\n'.join(o)

def const_eval(path, expr):
    """value of a constant expression over the crate's integer constants"""
    return str(ceval(path, expr))

def ceval(path, expr, depth=0):
    if depth > 12: raise Lost('const depth ' + expr)
    e = expr.strip()
    e = re.sub(r'\bas\s+\w+', '', e)
    e = re.sub(r'\b(\d[\d_]*)(u8|u16|u32|u64|usize|i64|u128)?\b', lambda m: m.group(1).replace('_', ''), e)
    def qual(m):
        base = 'elusiv/src/' + '/'.join(m.group(1).split('::')[:-1])
        for f in (base + '.rs', base + '/mod.rs'):
            if os.path.exists(os.path.join(rsx.REPO, f)):
                try: return str(cfind(f, m.group(2), depth))
                except Lost: pass
        return m.group(2)
    e = re.sub(r'\bcrate::((?:\w+::)+)([A-Z][A-Z0-9_]*)\b', qual, e)
    e = re.sub(r'\b(crate|super|self)::(\w+::)*', '', e)
    def two(m):
        return ''
    while True:
        m = re.search(r'two_pow!\s*\(', e)
        if not m: break
        j = rsx.match(e, m.end() - 1)
        e = e[:m.start()] + '(2 ** (' + e[m.end():j] + '))' + e[j+1:]
    def call(m): return m.group(0)
    m = re.search(r'\b(max|min|div_ceiling_usize|mt_size)\s*\(', e)
    funcs = dict(max=max, min=min, div_ceiling_usize=lambda a, b: -(-a // b), div_ceiling_u64=lambda a, b: -(-a // b), mt_size=lambda h: 2 ** (h + 1) - 1, usize_as_u32_safe=lambda x: x, commitments_per_batch=lambda x: 2 ** x)
    env = {}
    for n in set(re.findall(r'\b[A-Z][A-Z0-9_]+\b', e)):
        env[n] = cfind(path, n, depth)
    e2 = e.replace('/', '//')
    try: return int(eval(e2, {'__builtins__': {}}, {**env, **funcs}))
    except Lost: raise
    except Exception as x: raise Lost(f'cannot evaluate {expr}: {x}')

CONST_FILES = ['elusiv/src/state/commitment.rs', 'elusiv/src/commitment/mod.rs', 'elusiv/src/state/storage.rs', 'elusiv/src/state/metadata.rs', 'elusiv/src/state/nullifier.rs', 'elusiv/src/state/proof.rs', 'elusiv/src/state/vkey.rs', 'elusiv/src/types.rs', 'elusiv/src/processor/proof.rs', 'elusiv/src/processor/vkey.rs', 'elusiv/src/processor/accounts.rs', 'elusiv/src/processor/commitment.rs', 'elusiv/src/proof/verifier.rs', 'elusiv/src/token.rs', 'elusiv/src/map.rs']
def cfind(path, n, depth):
    for p in [path] + CONST_FILES:
        try: c = rsx.get_const(p, n)
        except Lost: continue
        return ceval(p, c.split('=', 1)[1].rstrip(';'), depth + 1)
    raise Lost('no constant ' + n)

def token_consts(u):
    import os
    n = len(re.findall(r'^\[\[token\]\]', open(os.path.join(rsx.REPO, 'Token.toml')).read(), re.M))
    if not n: raise Lost('Token.toml')
    c = rsx.get_const('shared/elusiv-types/src/tokens.rs', 'SPL_TOKEN_COUNT').replace('TOKENS.len()', 'TOKENS_LEN')
    return f'pub const TOKENS_LEN: usize = {n};\n{c}\n'

def rate_consts(u):
    """integer constants of the fee formulas; the step counts are those the crate asserts statically"""
    def asserted(path, what):
        m = re.search(r'const_assert_eq!\(\s*' + re.escape(what) + r'\s*,\s*(\d+)\s*\)', rsx.load(path))
        if not m: raise Lost(f'{path}: const_assert_eq!({what}, ..)')
        return m.group(1)
    b = asserted('elusiv/src/commitment/mod.rs', 'BaseCommitmentHashComputation::TX_COUNT')
    mi = asserted('elusiv/src/proof/verifier.rs', 'CombinedMillerLoop::TX_COUNT')
    fi = asserted('elusiv/src/proof/verifier.rs', 'FinalExponentiation::TX_COUNT')
    o = [f'pub const BASE_TX: usize = {b}; pub const MILLER_TX: usize = {mi}; pub const FINAL_TX: usize = {fi};']
    for n, c in (('BaseCommitmentHashComputation', 'BASE_TX'), ('CombinedMillerLoop', 'MILLER_TX'), ('FinalExponentiation', 'FINAL_TX')):
        o.append(f'pub struct {n}; impl {n} {{ pub const TX_COUNT: usize = {c}; }}')
    o.append(rsx.get_const('elusiv/src/commitment/mod.rs', 'MAX_COMMITMENT_BATCHING_RATE'))
    u.assumed.append('TX_COUNT of the generated computations: the values the crate asserts with const_assert_eq!')
    return '\n'.join(o) + '\n'

def buffer_instances(u):
    """every buffer_account!(..) of the program: its RingBuffer impl, with the real bodies"""
    path = 'elusiv/src/state/commitment.rs'
    t = rsx.load(path); ms = rsx.mask(t); o = []
    for m in re.finditer(r'(?<!\w)buffer_account!\s*([({])', ms):
        acc, ty, size = rsx.split_args(t[m.end():rsx.match(ms, m.end() - 1)])
        arm = rsx.expand_macro('elusiv/src/buffer.rs', 'buffer_account', path, acc)
        fs = rsx.fields_of(rsx.block(rsx.cut_tests(arm), 'pub struct ' + acc).body)
        fs = [(a, n, x) for a, n, x in fs if 'PDAAccountData' not in x]
        byn = {n: x for _, n, x in fs}
        if byn.get('values', '').replace(' ', '') != f'[{ty};{size}asusize]'.replace(' ', ''): raise Lost(f'{path}: values of {acc}')
        rest = [f for f in fs if f[1] != 'values']
        szv = const_eval(path, size)
        SZ = f'{acc}_SIZE'
        o.append(f'pub const {SZ}: usize = {szv};')
        o.append(model(u, acc, rest, extra='    pub values: Vec<u8>,'))
        o.append(f'''impl {acc} {{ #[verifier::external_body] pub fn set_values(&mut self, i: usize, v: &{ty})
            ensures i < {SZ}, final(self).values@.len() == old(self).values@.len(), *final(self) == ({acc} {{ values: final(self).values, ..*old(self) }}),
                win(final(self).values@, i as int, <{ty} as Bytes>::SIZE as int) == v.enc(),
                forall|k: int| 0 <= k < {SZ} && k != i ==> #[trigger] win(final(self).values@, k, <{ty} as Bytes>::SIZE as int) == win(old(self).values@, k, <{ty} as Bytes>::SIZE as int) {{ unimplemented!() }} }}''')
        blk = rsx.block(arm, "RingBuffer<'a, " + ty)
        cap = re.search(r'const\s+CAPACITY\s*:\s*usize\s*=\s*([^;]+);', blk.body)
        if not cap: raise Lost(path + ': no CAPACITY')
        o.append(f'impl RawBuf for {acc} {{ type N = {ty}; const CAPACITY: usize = {cap.group(1).replace(size, SZ)};')
        o.append('open spec fn l(&self) -> int { self.length as int } open spec fn p(&self) -> int { self.pointer as int } open spec fn raw(&self) -> Seq<u8> { self.values@ }')
        o.append(f'#[verifier::external_body] proof fn lem(&self) {{}}')
        for f in ('len', 'set_len', 'ptr', 'set_ptr', 'set_value', 'contains', 'find_position'):
            g = rsx.fn_in(blk.body, f, path)
            b = g.body
            b = re.sub(r'&self\.values\[\s*\.\.(.*?)\]\s*(?=[,)])', r'prefix(&self.values, \1)', b, flags=re.S)
            b = re.sub(r'\.try_into\(\)\.unwrap\(\)', '.try_num().ok_or_abort()', b)
            b = b.replace('crate::bytes::', '').replace('elusiv_types::bytes::BorshSerDeSized', 'Bytes')
            pre = f'proof {{ self.lem(); lemma_pre(self.values@, self.length as int, {SZ} as int, <{ty} as Bytes>::SIZE as int); }}' if f in ('contains', 'find_position') else ''
            o.append(g.sig + '{' + pre + b + '}')
        o.append(f'}}\nimpl RingBuffer for {acc} {{}}')
    u.dropped.append('buffer_account!: lifetimes of the generated structs; &self.values[..n] as prefix(&self.values, n)')
    u.assumed.append('a buffer account holds exactly CAPACITY values (size of the generated account)')
    return '\n'.join(o)

def ints(u, path, *names):
    """integer constants, evaluated from their defining expressions: NAME or NAME:type"""
    o = []
    for n in names:
        c = rsx.get_const(path, n)
        ty = re.search(r':\s*(\w+)\s*=', c).group(1)
        o.append(f'pub const {n}: {ty} = {cfind(path, n, 0)};')
    return '\n'.join(o) + '\n'

def metadata_size(u):
    m = re.search(r'pub type CommitmentMetadata = \[u8; (\w+)\];', rsx.load('elusiv/src/state/metadata.rs'))
    if not m: raise Lost('type CommitmentMetadata')
    n = const_eval('elusiv/src/state/metadata.rs', m.group(1))
    u.assumed.append('BorshSerDeSized SIZE of a byte array is its length')
    return f'pub const MSIZE: usize = {n};\npub type CommitmentMetadata = [u8; {n}];\n'

def modulus_const(u):
    c = rsx.get_const('elusiv/src/fields.rs', 'SCALAR_MODULUS_RAW')
    m = re.search(r'BigInteger256\(\s*\[([^\]]*)\]\s*\)', c)
    if not m: raise Lost('SCALAR_MODULUS_RAW')
    ns = [x.strip() for x in m.group(1).split(',') if x.strip()]
    return (f'pub open spec fn smr() -> [u64; 4] {{ [{", ".join(n + "u64" for n in ns)}] }}\n'
            f'pub fn scalar_modulus_raw() -> (r: BigInteger256) ensures r == BigInteger256(smr()) {{ BigInteger256([{", ".join(ns)}]) }}\n')

def intsas(u, path, *names): return ints(u, path, *names)

def commitment_hashing_model(u):
    """CommitmentHashingAccount: the real field list with the lengths of the arrays as constants"""
    return accessors(u, 'elusiv/src/state/commitment.rs', 'struct CommitmentHashingAccount',
                     types={'siblings': '[U256; MT_H]', 'above_hashes': '[U256; MT_H]'})

def instruction_indices(u):
    """ElusivInstruction::X_INDEX: the derive macro numbers the variants in order of declaration"""
    t = rsx.load('elusiv/src/instruction.rs')
    if 'enum ElusivInstruction' not in t: raise Lost('elusiv/src/instruction.rs: no enum ElusivInstruction')
    ms = rsx.mask(t); i = ms.index('{', ms.index('enum ElusivInstruction')); j = rsx.match(ms, i)
    vs = []; d = 0; k = i + 1
    while k < j:
        if ms[k] in '({[':
            if ms[k] == '[' or ms[k] == '(' or ms[k] == '{': k = rsx.match(ms, k)
        elif re.match(r'[A-Z]\w*', ms[k:j]) and not ms[k-1].isalnum() and ms[k-1] != '_':
            m = re.match(r'[A-Z]\w*', ms[k:j]); vs.append(m.group(0)); k += len(m.group(0)) - 1
        k += 1
    snake = lambda n: re.sub(r'(?<!^)(?=[A-Z])', '_', n).upper()
    u.assumed.append('ElusivInstruction::*_INDEX: generated by the derive macro, position of the variant in the declaration')
    return 'pub struct ElusivInstruction {}\nimpl ElusivInstruction {\n' + '\n'.join(f'    pub const {snake(v)}_INDEX: u8 = {n};' for n, v in enumerate(vs)) + '\n}\n'

def verification_model(u):
    """VerificationAccount: the real field list; lazily decoded values (proof points, intermediate state) apart"""
    lazy = ('a', 'b', 'c', 'prepared_inputs', 'r', 'f', 'alt_b', 'ram_fq', 'ram_fq2', 'ram_fq6', 'ram_fq12')
    e = rsx.get_item('elusiv/src/state/proof.rs', 'enum VerificationState')
    out = e.replace('pub enum', '#[derive(Clone, Copy)]\npub enum', 1) + """
impl vstd::std_specs::cmp::PartialEqSpecImpl for VerificationState { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for VerificationState { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
"""
    e = rsx.get_item('elusiv/src/proof/verifier.rs', 'enum VerificationStep')
    out += e.replace('pub enum', '#[derive(Clone, Copy)]\npub enum', 1) + '\n'
    return out + accessors(u, 'elusiv/src/state/proof.rs', 'struct VerificationAccount', types={'public_input': 'Vec<u8>', 'tree_indices': '[u32; MAX_MT]'}, skip=lazy,
                           extra='    pub a: LazyF<G1A>, pub b: LazyF<G2A>, pub c: LazyF<G1A>,\n'
                           '    pub prepared_inputs: LazyF<G1A>, pub r: LazyF<G2HomProjective>, pub f: LazyF<Wrap<Fq12>>, pub alt_b: LazyF<G2A>, pub ram_fq: Ram, pub mlog: Ghost<Seq<MRound>>, pub flog: Ghost<Seq<FRound>>,')

def pairing_model(u):
    """VerificationAccount: the fields the computation of a verdict works on, lazily decoded values apart"""
    out = ''
    for f, n in (('elusiv/src/state/proof.rs', 'VerificationState'), ('elusiv/src/proof/verifier.rs', 'VerificationStep')):
        out += rsx.get_item(f, 'enum ' + n).replace('pub enum', '#[derive(Clone, Copy)]\npub enum', 1) + f"""
impl vstd::std_specs::cmp::PartialEqSpecImpl for {n} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }} }}
impl PartialEq for {n} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}
"""
    return out + accessors(u, 'elusiv/src/state/proof.rs', 'struct VerificationAccount',
                           skip=('a', 'b', 'c', 'prepared_inputs', 'r', 'f', 'alt_b', 'ram_fq', 'ram_fq2', 'ram_fq6', 'ram_fq12', 'pda_data', 'prepare_inputs_instructions', 'public_input', 'is_verified', 'other_data', 'request', 'tree_indices'),
                           extra='    pub a: LazyF<G1A>, pub b: LazyF<G2A>, pub c: LazyF<G1A>, pub prepared_inputs: LazyF<G1A>, pub r: LazyF<G2HomProjective>, pub f: LazyF<Wrap<Fq12>>, pub alt_b: LazyF<G2A>, pub rest: Rest,').replace('VerificationAccount', 'Core') + '\npub struct VerificationAccount { pub ram_fq2: Ram<Fq2>, pub ram_fq6: Ram<Fq6>, pub ram_fq12: Ram<Fq12>, pub core: Core }\n'

def vkey_infos(u):
    """the verifying keys of the program: verification_key_info!(Name, id, public inputs, ..)"""
    path = 'elusiv/src/proof/vkey.rs'
    t = rsx.load(path); ms = rsx.mask(t); o = []
    for m in re.finditer(r'\bverification_key_info!\s*\(', ms):
        a = rsx.split_args(t[m.end():rsx.match(ms, m.end() - 1)])
        o.append(f'pub struct {a[0]} {{ x: u8 }}\nimpl {a[0]} {{ pub const VKEY_ID: u32 = {a[1]}; pub const PUBLIC_INPUTS_COUNT: u32 = {a[2]}; }}')
    if not o: raise Lost(path + ': no verification_key_info')
    return '\n'.join(o) + '\n'

def nullifier_model(u):
    """NullifierAccount: the real field list; the maps of its child accounts apart"""
    return accessors(u, 'elusiv/src/state/nullifier.rs', 'struct NullifierAccount', skip=('pubkeys',),
                     types={'max_values': '[ElusivOption<U256>; NCHILD]', 'moved_values': '[U256; JOIN_SPLIT_MAX_N_ARITY]', 'moved_values_target': '[u8; JOIN_SPLIT_MAX_N_ARITY]'},
                     extra='    pub children: Ghost<Seq<Option<NullifierMap>>>,')

def nullifier_counts(u):
    v = {n: cfind('elusiv/src/state/nullifier.rs', n, 0) for n in ('NULLIFIERS_PER_ACCOUNT', 'NULLIFIERS_COUNT', 'ACCOUNTS_COUNT')}
    return f"pub const NULLIFIERS_PER_ACCOUNT: usize = {v['NULLIFIERS_PER_ACCOUNT']};\npub const NULLIFIERS_COUNT: usize = {v['NULLIFIERS_COUNT']};\npub const NCHILD: usize = {v['ACCOUNTS_COUNT']};\n" + f"pub open spec fn full_of(n: int) -> int {{ n / {v['NULLIFIERS_PER_ACCOUNT']} }}\npub open spec fn caps(i: int) -> int {{ i * {v['NULLIFIERS_PER_ACCOUNT']} }}\n"

def sizes(u, path, *specs):
    """NAME=header: the SIZE constant of `impl BorshSerDeSized for header`"""
    o = []
    for sp in specs:
        n, h = sp.split('=', 1)
        o.append(f'pub const {n}: usize = {const_eval(path, rsx.get_const(path, "SIZE", h).split("=", 1)[1].rstrip(";"))};')
    return '\n'.join(o) + '\n'

def werrors(u):
    t = rsx.source('elusiv-warden-network/src/error.rs')
    b = rsx.block(t, 'enum ElusivWardenNetworkError').body
    vs = [re.match(r'(\w+)', re.sub(r'#\[[^\]]*\]', '', v).strip()).group(1) for v in b.split(',') if v.strip()]
    return ('#[derive(Clone, Copy)]\npub enum ElusivWardenNetworkError { ' + ', '.join(vs) + ' }\n'
            'impl From<ElusivWardenNetworkError> for ProgramError { #[verifier::external_body] fn from(e: ElusivWardenNetworkError) -> (r: Self) { ProgramError::Custom(e as u32) } }\n')

def network_sizes(u, path):
    """warden_network!(Name, size): the maximum of the size as Name_MAX; NetworkSize::max is verified to return it"""
    t = rsx.load(path); ms = rsx.mask(t); o = []
    for m in re.finditer(r'\bwarden_network!\s*\(', ms):
        n, e = rsx.split_args(t[m.end():rsx.match(ms, m.end() - 1)])
        f = re.match(r'NetworkSize::(Fixed|Dynamic)\((.*)\)$', e, re.S)
        if not f: raise Lost(path + ': ' + e)
        v = f.group(2).split(',')[-1].strip().replace('_', '')
        if not v.isdigit(): raise Lost(path + ': ' + e)
        o.append(f'pub const {n}_MAX: usize = {v};')
    if not o: raise Lost(path + ': no warden_network!')
    return '\n'.join(o) + '\n'

def sitem(u, path, header, *rws):
    """an item with rewrites `regex=>text` of its text"""
    s = rsx.get_item(path, header)
    for r in rws:
        a, b = r.split('=>', 1)
        n = re.sub(a, b, s)
        if n != s: u.dropped.append(f'{header}: rewrite /{a}/ -> {b}'); s = n
    return s + '\n'

def xaccessors(u, path, header, skip='', *rws):
    """accessors() with rewrites `regex=>text` of the field types"""
    fs = [(a, n, t) for a, n, t in rsx.struct_fields(path, header) if 'PDAAccountData' not in t and n not in skip.split()]
    out = []
    for a, n, t in fs:
        for r in rws:
            x, y = r.split('=>', 1)
            t2 = re.sub(x, y, t)
            if t2 != t: u.dropped.append(f'{header}: rewrite /{x}/ -> {y}'); t = t2
        out.append((a, n, t))
    return model(u, re.search(r'struct (\w+)', header).group(1), out)

def eqspec(u, *types):
    """== of the named types is the derived structural equality"""
    u.assumed.append('== of ' + ', '.join(types) + ' (derived PartialEq) is structural equality')
    return '\n'.join(f'impl vstd::std_specs::cmp::PartialEqSpecImpl for {t} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }} }}\nimpl PartialEq for {t} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}' for t in types) + '\n'

def account_positions(u, path, enum, *specs):
    """NAME=Variant.account: position of the account among those the instruction takes, in order of declaration"""
    t = rsx.load(path); ms = rsx.mask(t); i = ms.index('{', ms.index('enum ' + enum)); j = rsx.match(ms, i)
    o = []
    for s in specs:
        n, va = s.split('='); v, a = va.split('.')
        pend = []; k = i + 1; found = None
        while k < j:
            if ms[k] == '#':
                e = rsx.match(ms, ms.index('[', k)); m = re.match(r'#\[(acc|pda|sys)\(\s*(\w+)', t[k:e])
                if m: pend.append(m.group(2))
                k = e
            elif ms[k] in '({[': k = rsx.match(ms, k)
            else:
                m = re.match(r'[A-Z]\w*', ms[k:j])
                if m and not (ms[k-1].isalnum() or ms[k-1] == '_'):
                    if m.group(0) == v: found = pend; break
                    pend = []; k += len(m.group(0)) - 1
            k += 1
        if not found or a not in found: raise Lost(f'{path}: no account {a} of {v}')
        o.append(f'pub const {n}: u8 = {found.index(a)};')
    return '\n'.join(o) + '\n'

# ---- generated dispatchers (G03)

def _fpa(seeds, pid):
    """Pubkey::find_program_address"""
    import hashlib
    p = 2**255 - 19; d = -121665 * pow(121666, p - 2, p) % p
    def on_curve(b):
        y = int.from_bytes(b, 'little'); sgn = y >> 255; y &= (1 << 255) - 1
        y %= p
        u = (y * y - 1) % p; v = (d * y * y + 1) % p
        x = u * pow(v, 3, p) * pow(u * pow(v, 7, p), (p - 5) // 8, p) % p
        return v * x * x % p in (u, p - u)
    for bump in range(255, -1, -1):
        h = hashlib.sha256(b''.join(seeds) + bytes([bump]) + pid + b'ProgramDerivedAddress').digest()
        if not on_curve(h): return h, bump
    raise Lost('no program address')

def _split(s):
    r = []; d = 0; c = ''
    for i, x in enumerate(s):
        if x in '<([': d += 1
        if x in '>)]' and not (x == '>' and i and s[i-1] in '-='): d -= 1
        if x == ',' and d == 0: r.append(c.strip()); c = ''; continue
        c += x
    if c.strip(): r.append(c.strip())
    return r

def _ints(s): return [int(x) for x in re.findall(r'\d+', re.sub(r'u8', '', s))]

def dispatch(u, spec, enum, table):
    """Every generated dispatcher of the instruction enum, verbatim from the expansion, against
    processors whose preconditions are the account requirements listed in the table."""
    t = rsx.load('expanded:' + spec)
    b = [x for x in rsx.blocks(t, 'impl ' + enum) if re.search(r'\bfn process\b', x.body)]
    if not b: raise Lost(spec + ': no dispatcher')
    b = b[0].body
    tab = {}
    for l in open(os.path.join(os.path.dirname(__file__), 'units', table)):
        l = l.split('#')[0].strip()
        if not l: continue
        n, r = l.split(':', 1); tab[n.strip()] = [x.strip() for x in r.split(';') if x.strip()]
    o = []
    # program derived accounts: seeds and addresses
    pid = bytes(_program_id(spec))
    seeds = {}
    for m in re.finditer(r'impl\s*(?:<[^>]*>)?\s*elusiv_types::accounts::PDAAccount\s+for\s+(\w+)', t):
        blk = t[m.end():rsx.match(rsx.mask(t), rsx.mask(t).index('{', m.end()))]
        sd = _ints(re.search(r'SEED: &\'static \[u8\] =\s*&\[(.*?)\]', blk, re.S).group(1))
        fp = re.search(r'FIRST_PDA:.*?new_from_array\(\[(.*?)\]\),\s*(\d+)u8', blk, re.S)
        seeds[m.group(1)] = (sd, _ints(fp.group(1)), int(fp.group(2)))
    hs = [m.group(1) for m in re.finditer(r'\n\s*fn (\w+)\(\s*accounts\s*:', b)]
    if set(hs) - set(tab): raise Lost('instructions without requirements: ' + ', '.join(sorted(set(hs) - set(tab))))
    if set(tab) - set(hs): raise Lost('instructions that are gone: ' + ', '.join(sorted(set(tab) - set(hs))))
    procs = rsx.blocks(t, 'mod processor')
    used = set(re.findall(r'<(\w+) as elusiv_types::accounts::PDAAccount>', re.sub(r'\s+', ' ', b)))
    role = lambda T, key, off, k: f'role::<{T}>(*{key}, {k}, {off})'
    opaque = set()
    for T in sorted(used | {x.split()[2] for v in tab.values() for x in v if x.split()[0] in 'PF'} | set(seeds)):
        if T not in seeds: raise Lost(f'{T}: no PDAAccount')
        sd, fp, bump = seeds[T]
        h, bb = _fpa([bytes(sd)], pid)
        arr = lambda x: '[' + ', '.join(f'{v}u8' for v in x) + ']'
        o.append(f'pub struct {T} {{ pub key: Pubkey, pub kids: Option<Kids>, pub tree: [u32; 2] }}')
        o.append(f'#[verifier::opaque] pub open spec fn seed_{T}() -> Seq<u8> {{ seq!{arr(sd)} }}')
        o.append(f'#[verifier::opaque] pub open spec fn first_{T}() -> (Pubkey, u8) {{ (Pubkey {{ b: {arr(fp)} }}, {bump}) }}')
        o.append(f'impl PDAAccount for {T} {{ }} impl Seeded for {T} {{ open spec fn seed() -> Seq<u8> {{ seed_{T}() }} open spec fn first() -> (Pubkey, u8) {{ first_{T}() }} '
                 '#[verifier::external_body] fn seed_x() -> (r: &\'static [u8]) { unimplemented!() } #[verifier::external_body] fn first_x() -> (r: (Pubkey, u8)) { unimplemented!() } }')
        o.append(f'impl Acct for {T} {{ open spec fn at(self) -> Pubkey {{ self.key }} open spec fn kids_s(self) -> Option<Kids> {{ self.kids }} #[verifier::external_body] fn new(d: DataRef) -> (r: Result<Self, ProgramError>) {{ unimplemented!() }} '
                 f'#[verifier::external_body] fn find_child_accounts(p: &Self, id: &Pubkey, writable: bool, i: &mut Rest) -> (r: Result<Kids, ProgramError>) {{ unimplemented!() }} '
                 f'#[verifier::external_body] fn set_child_accounts(p: &mut Self, k: Kids) ensures final(p).tree == old(p).tree, final(p).key == old(p).key {{ unimplemented!() }} }}')
        o.append(f'impl {T} {{ #[verifier::external_body] pub fn get_tree_indices(&self, i: usize) -> (r: u32) ensures i < 2, r == self.tree@[i as int] {{ unimplemented!() }} }}')
        # the address of the role without offset is the one derived from its seed
        ln = len(''.join(o).split('\n'))
        o.append(f'/*@first*/ pub proof fn lemma_first_{T}() ensures {T}::first() == (Pubkey {{ b: {arr(h)} }}, {bb}u8) {{ reveal(first_{T}); assert({arr(fp)}@ =~= {arr(h)}@); }}')
        u.seedlens = getattr(u, 'seedlens', {}); u.seedlens[T] = sd
    # different roles: the concatenated seeds differ. suffixes: offset, pubkey
    suf = {}
    for v in tab.values():
        for x in v:
            w = x.split()
            if w[0] in 'PFU':
                a = dict(y.split('=', 1) for y in w[3:])
                suf.setdefault(w[2], set()).add((4 if 'off' in a else 0) + (32 if 'key' in a else 0))
    ts = sorted(suf); c = []
    for i, A in enumerate(ts):
        for B in ts[i+1:]:
            x, y = seeds[A][0], seeds[B][0]
            if len(x) > len(y): x, y, A2, B2 = y, x, B, A
            else: A2, B2 = A, B
            if y[:len(x)] == x:
                for sa in suf[A2]:
                    for sb in suf[B2]: c.append(f'    assert({len(x)}int + {sa} != {len(y)}int + {sb}); // {A2} and {B2}')
    o.append('pub proof fn lemma_roles_disjoint() {\n' + '\n'.join(c) + '\n}')
    # types of the arguments
    prim = {'u8', 'u16', 'u32', 'u64', 'bool', 'usize'}
    calls = []
    for n in hs:
        f = rsx.fn_in(b, n, spec)
        mc = re.search(r'processor::(\w+)\s*\(', f.body)
        if not mc: raise Lost(f'{n}: no processor call')
        pn = mc.group(1); ps = None
        for blk in procs:
            try: ps = rsx.fn_in(blk.body, pn, spec); break
            except Lost: pass
        if ps is None: raise Lost('no processor ' + pn)
        i = ps.sig.index('('); j = rsx.match(rsx.mask(ps.sig), i)
        pl = []
        for p in _split(re.sub(r'\s+', ' ', ps.sig[i+1:j])):
            a, ty = p.split(':', 1); a = re.sub(r'^mut\s+', '', a.strip()); ty = re.sub(r"'\w+ ", '', ty.strip())
            ty = re.sub(r"(\w+)<'[^>]*>", r'\1', ty)
            pl.append((a, ty))
        req = []
        names = {a.lstrip('_'): a for a, _ in pl}
        tys = dict(pl)
        for x in tab[n]:
            w = x.split(); a = dict(y.split('=', 1) for y in w[3:]) if w[0] in 'PFUK' else {}
            if w[1] not in names: raise Lost(f'{pn}: no parameter {w[1]}')
            v = names[w[1]]
            off = f"Some({a['off']} as u32)" if 'off' in a else 'None::<u32>'
            key = 'None::<Pubkey>' if 'key' not in a else f"Some({a['key']})"
            for q, r in names.items(): key = re.sub(r'\b' + q + r'\b', r, key); off = re.sub(r'\b' + q + r'\b', r, off)
            vk = f'*{v}.key' if 'AccountInfo' in tys[v] else f'{v}.key'
            if w[0] == 'S': req.append(f'{v}.is_signer')
            elif w[0] == 'O': req.append(f'*{v}.owner == id_s()')
            elif w[0] == 'Y': req.append(f'*{v}.key == {w[2]}')
            elif w[0] in ('P', 'F'):
                pred = 'role' if w[0] == 'P' else 'frole'
                req.append(f'exists|k: Pubkey| #[trigger] {pred}::<{w[2]}>({vk}, Some(k), {off})' if a.get('key') == '*' else f'{pred}::<{w[2]}>({vk}, {key}, {off})')
            elif w[0] == 'K': req.append(f'{v}.kids is Some && {v}.kids->Some_0.of == {v}.key && {v}.kids->Some_0.owner == id_s()')
            elif w[0] == 'U': req.append(f'!{v}.is_verified')
            else: raise Exception('bad requirement ' + x)
        req = [re.sub(r'\b(verification_account)\.tree\b', r'\1.tree', r) for r in req]
        for _, ty in pl:
            for w in re.findall(r'[A-Z]\w+', ty):
                if w not in seeds and w not in ('AccountInfo', 'UnverifiedAccountInfo', 'Option', 'Pubkey', 'MAX_MT_COUNT', 'ElusivOption'): opaque.add(w)
        rq = ''.join(f'        {r},\n' for r in req)
        # a mutable parameter is checked in its initial state
        for a, ty in pl:
            if ty.startswith('&mut '): rq = re.sub(r'(?<![\w.])\*?' + a + r'\b', f'old({a})', rq)
        calls.append(f'    #[verifier::external_body] pub fn {pn}(' + ', '.join(f'{a}: {ty}' for a, ty in pl) + f') -> (r: ProgramResult)\n' + (f'    requires\n{rq}' if req else '') + '    { unimplemented!() }\n')
        u.assumed.append(f'processor {pn}: called only with what its requirements name')
    known = {'ElusivWardenID': 'pub type ElusivWardenID = u32;', 'ElusivBasicWardenConfig': 'pub struct ElusivBasicWardenConfig { pub key: Pubkey }', 'ApaProposal': 'pub struct ApaProposal { pub target: Pubkey }'}
    for w in sorted(opaque): o.append(known.get(w, f'pub struct {w} {{ pub x: u8 }}'))
    if not any('enum ElusivOption' in x for x in o): o.append('pub enum ElusivOption<N> { Some(N), None }')
    mt = re.search(r'const MAX_MT_COUNT: usize = (\d+);', t)
    if mt: o.append(f'pub const MAX_MT_COUNT: usize = {mt.group(1)};')
    o.append('pub mod processor { use super::*;\n' + '\n'.join(calls) + '}')
    rws = [(r'&solana_program::account_info::next_account_info\(account_info_iter\)', 'next(&mut account_info_iter)', 'next_account_info: some account of the instruction'),
           (r'&mut accounts\.iter\(\)', 'accounts_iter()', 'iterator over the accounts'), (r'&mut (\w+)\.data\.borrow_mut\(\)\[\.\.\]', r'data_of(\1)', 'the bytes of the account'),
           (r',\s*account_info_iter\)', ', &mut account_info_iter)', 'iterator'), (r'\belusiv_types::accounts::(ProgramAccount|ParentAccount)\b', 'Acct', 'traits of accounts'), (r'\belusiv_types::accounts::', '', 'path'),
           (r'\bsolana_program::program_error::', '', 'path'), (r'\bcrate::ID\b', 'id()', 'crate::ID as id()'), (r'\b(\w+)\.into\(\)', r'(\1 as u32)', 'into() of an integer'),
           (r'\b(system_program|instructions|spl_token|spl_associated_token_account)::ID\b', r'\1_id()', 'program ids'), (r'&&(\w+)\)', r'\1)', 'references to references')]
    for n in hs:
        f = rsx.fn_in(b, n, spec); body = f.body; sig = re.sub(r'\s+', ' ', f.sig)
        for x, y, why in rws:
            nb = re.sub(x, y, body)
            if nb != body: u.dropped.append('dispatchers: ' + why); body = nb
        if getattr(u, 'vac', False): body = re.sub(r'(\bprocessor::)', r'proof { assert(false); } \1', body)
        sig = re.sub(r'&\[solana_program::account_info::AccountInfo\]', '&Accounts', sig).replace('solana_program::entrypoint::', '').replace('fn ', 'pub fn ', 1)
        first = u.cur + sum(x.count('\n') + 1 for x in o) + 1
        o.append(sig + ' {' + body + '}')
        u.fns.append((n, ['G03'], spec, first, u.cur + sum(x.count('\n') + 1 for x in o)))
    return '\n'.join(o) + '\n'

def _program_id(spec):
    t = rsx.load('expanded:' + spec)
    m = re.search(r'PROGRAM_ID:[^=]*=\s*[^;]*?\[(.*?)\]', t, re.S) or re.search(r'static ID:[^=]*=\s*[^;]*?\[(.*?)\]', t, re.S)
    if not m: raise Lost(spec + ': no program id')
    return _ints(m.group(1))

def schedules(u, spec, names):
    """The tables the compute-unit macros generate (impl PartialComputation<N> for T, from the expansion): one specification,
    one executable copy and one lemma each: the rounds of the instructions add up to the declared total, over N instructions."""
    t = rsx.load('expanded:' + spec); ms = rsx.mask(t); o = []
    for m in re.finditer(r'impl elusiv_computation::PartialComputation<(\d+)(?:usize)?>\s*for\s*(\w+)(?:<(\d+)>)?\s*\{', t):
        b = t[m.end():rsx.match(ms, m.end() - 1)]
        name = m.group(2) + ('_' + m.group(3) if m.group(3) else '')
        if not re.fullmatch(names, m.group(2)): continue
        tab = re.search(r'const INSTRUCTION_ROUNDS: \[u8; (\d+)(?:usize)?\] =\s*\[(.*?)\];', b, re.S)
        tot = re.search(r'const TOTAL_ROUNDS: u32 = (\d+)(?:u32)?;', b)
        if not tab or not tot: raise Lost(f'{spec}: the schedule of {name} is not a literal table')
        vs = _ints(tab.group(2))
        o.append(f'''pub open spec fn tab_{name}() -> Seq<u8> {{ seq![{", ".join(f"{v}u8" for v in vs)}] }}
pub fn x_tab_{name}() -> (r: Vec<u8>) ensures r@ == tab_{name}() {{ let r: Vec<u8> = vec![{", ".join(map(str, vs))}]; proof {{ assert(r@ =~= tab_{name}()); }} r }}
pub const IX_{name}: usize = {int(m.group(1))};
pub const TOTAL_{name}: u32 = {tot.group(1)};
pub proof fn lemma_tab_{name}() ensures psum(tab_{name}(), tab_{name}().len() as int) == TOTAL_{name}, tab_{name}().len() == IX_{name}, TOTAL_{name} > 0
{{ assert(psum(tab_{name}(), tab_{name}().len() as int) == TOTAL_{name} && tab_{name}().len() == IX_{name}) by(compute_only); }}''')
    if not o: raise Lost(spec + ': no generated schedules')
    return '\n'.join(o)

def poseidon(u):
    """The constants of Poseidon and of the empty tree, read from the source: a specification of each round's constants and of the
    matrix (numbers in Montgomery representation), the algorithm over them, and for every stored constant the lemma that it is the hash it stands for."""
    pc = 'elusiv/src/commitment/poseidon_constants.rs'
    lim = lambda s: [_ints(x) for x in re.findall(r'BigInteger256(?:::new)?\(\s*\[(.*?)\]', s, re.S)]
    b = rsx.get_fn(pc, 'constants').body
    arms = []
    for m in re.finditer(r'\b(\d+)(?:usize)?\s*=>\s*\[', b):
        e = rsx.match(rsx.mask(b), m.end() - 1)
        arms.append((int(m.group(1)), lim(b[m.end():e])))
    if not arms or any(i != k or len(v) != 3 or any(len(w) != 4 for w in v) for k, (i, v) in enumerate(arms)): raise Lost(pc + ': the table of round constants has another form')
    mx = lim(rsx.get_const(pc, 'MATRIX'))
    if len(mx) != 9: raise Lost(pc + ': MATRIX has another form')
    n4 = lambda l: f'n4({l[0]}, {l[1]}, {l[2]}, {l[3]})'
    def tree(a, z):
        if z - a == 1: return '(' + ', '.join(map(n4, arms[a][1])) + ')'
        k = (a + z) // 2
        return f'if i < {k} {{ {tree(a, k)} }} else {{ {tree(k, z)} }}'
    o = [f'pub const POSEIDON_TABLE: u32 = {len(arms)};',
         f'/// the constants of round i\npub open spec fn rc(i: int) -> (int, int, int) {{ {tree(0, len(arms))} }}',
         'pub struct Mx { pub p: int, pub ri: int, ' + ', '.join(f'pub m{i}: int' for i in range(9)) + ' }',
         '/// the modulus, the inverse of 2^256 and the matrix\npub open spec fn mx() -> Mx { Mx { p: pp(), ri: ri(), ' + ', '.join(f'm{i}: {n4(v)}' for i, v in enumerate(mx)) + ' } }',
         f'pub fn x_matrix(i: usize) -> (r: Fr) ensures i < 9, {", ".join(f"i == {i} ==> rv(r) == mx().m{i}" for i in range(9))}\n{{ match i {{ ' + ', '.join(f'{i} => fnew([{", ".join(map(str, v))}])' for i, v in enumerate(mx)) + ', _ => abort() } }']
    def arr(path, name):
        t = rsx.get_const(path, name); t = t[t.index('=') + 1:]
        return t
    et = [_ints(x) for x in re.findall(r'\[([\d\s,u]+)\]', arr('elusiv/src/state/storage.rs', 'EMPTY_TREE'))]
    z, zr = (_ints(arr('elusiv/src/processor/commitment.rs', n)) for n in ('ZERO_COMMITMENT', 'ZERO_COMMITMENT_RAW'))
    if any(len(x) != 32 for x in et + [z, zr]): raise Lost('the empty-tree constants have another form')
    sq = lambda v: 'seq![' + ', '.join(f'{x}u8' for x in v) + ']'
    for n, v in [(f'e{i}', v) for i, v in enumerate(et)] + [('zero_commitment', z), ('zero_commitment_raw', zr)]: o.append(f'pub open spec fn {n}() -> Seq<u8> {{ {sq(v)} }}')
    o.append(f'pub const EMPTY_TREE_LEN: usize = {len(et)};')
    o.append('pub open spec fn empty_tree(i: int) -> Seq<u8> { ' + ''.join(f'if i == {i} {{ e{i}() }} else ' for i in range(len(et))) + '{ seq![] } }')
    L = lambda n, t: o.append(f'pub proof fn {n}() ensures {t}\n{{ assert({t}) by(compute_only); }}')
    for i in range(len(et)):
        w = (0, 0) if i == 0 else (f'le(e{i-1}(), 0)',) * 2
        L(f'lemma_empty_{i}', f'le(e{i}(), 0) == prounds(mx(), 65, (0, {w[0]}, {w[1]})).0 && le(e{i}(), 0) < pp() && e{i}().len() == 32')
    L('lemma_zero_commitment', 'le(zero_commitment(), 0) == prounds(mx(), 65, (0, le(e0(), 0), 0)).0 && zero_commitment().len() == 32')
    L('lemma_zero_commitment_raw', 'le(zero_commitment_raw(), 0) < pp() && le(zero_commitment_raw(), 0) * n4(0, 0, 0, 0x1_0000_0000_0000_0000) % pp() == le(zero_commitment(), 0) && zero_commitment_raw().len() == 32')
    zb = lim(arr('elusiv/src/processor/commitment.rs', 'ZERO_BASE_COMMITMENT'))
    if len(zb) != 1: raise Lost('ZERO_BASE_COMMITMENT has another form')
    L('lemma_zero_base_commitment', f'{n4(zb[0])} == le(e0(), 0)')
    L('lemma_inverse', 'ri() * n4(0, 0, 0, 0x1_0000_0000_0000_0000) % pp() == 1')
    o.append('/// every empty node is the hash of two empty nodes of the level below, the empty leaf is the hash of two zeros\npub proof fn empty_tree_is_poseidon() ensures EMPTY_TREE_LEN == MT_HEIGHT + 1, le(empty_tree(0), 0) == hash2(0, 0), forall|i: int| 0 <= i < MT_HEIGHT ==> le(#[trigger] empty_tree(i + 1), 0) == hash2(le(empty_tree(i), 0), le(empty_tree(i), 0)),\n    le(zero_commitment(), 0) == hash2(le(empty_tree(0), 0), 0)\n{ ' + ' '.join(f'lemma_empty_{i}();' for i in range(len(et))) + ' lemma_zero_commitment();\n'
             '    assert forall|i: int| 0 <= i < MT_HEIGHT implies le(#[trigger] empty_tree(i + 1), 0) == hash2(le(empty_tree(i), 0), le(empty_tree(i), 0)) by { ' + ' '.join(f'if i == {i} {{ assert(empty_tree(i) == e{i}() && empty_tree(i + 1) == e{i+1}()); }}' for i in range(len(et) - 1)) + ' } }')
    return '\n'.join(o)

def fieldops(u, *types):
    """The operators of the extension fields, for values and references: one uninterpreted operation each."""
    o = ['pub mod fld {', 'use super::*;', 'use vstd::prelude::*;', '#[derive(Clone, Copy)] pub struct Fq { x: u64 }', '#[derive(Clone, Copy)] pub struct Fq2 { pub c0: Fq, pub c1: Fq }',
         '#[derive(Clone, Copy)] pub struct Fq6 { pub c0: Fq2, pub c1: Fq2, pub c2: Fq2 }', '#[derive(Clone, Copy)] pub struct Fq12 { pub c0: Fq6, pub c1: Fq6 }']
    for t in types:
        p = t.lower()
        for tr, op in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul')):
            o.append(f'pub uninterp spec fn {p}_{op}(a: {t}, b: {t}) -> {t};')
            for rhs, d, g, l in ((t, 'o', '', ''), ('&' + t, '*o', "<'a>", "'a ")):
                o.append(f'''impl vstd::std_specs::ops::{tr}SpecImpl{'<&' + t + '>' if l else ''} for {t} {{ open spec fn obeys_{op}_spec() -> bool {{ true }} open spec fn {op}_req(self, o: {rhs}) -> bool {{ true }} open spec fn {op}_spec(self, o: {rhs}) -> {t} {{ {p}_{op}(self, {d}) }} }}
impl{g} core::ops::{tr}{"<&'a " + t + '>' if l else ''} for {t} {{ type Output = {t}; #[verifier::external_body] fn {op}(self, o: {"&'a " + t if l else t}) -> {t} {{ unimplemented!() }} }}''')
        o.append(f'''pub uninterp spec fn {p}_neg(a: {t}) -> {t};
pub uninterp spec fn {p}_zero() -> {t};
pub uninterp spec fn {p}_one() -> {t};
pub uninterp spec fn {p}_inv(a: {t}) -> Option<{t}>;
pub uninterp spec fn {p}_frob(a: {t}, n: int) -> {t};
impl {t} {{
    #[verifier::external_body] pub fn zero() -> (r: Self) ensures r == {p}_zero() {{ unimplemented!() }}
    #[verifier::external_body] pub fn one() -> (r: Self) ensures r == {p}_one() {{ unimplemented!() }}
    #[verifier::external_body] pub fn neg(self) -> (r: Self) ensures r == {p}_neg(self) {{ unimplemented!() }}
    #[verifier::external_body] pub fn square(&self) -> (r: Self) ensures r == {p}_mul(*self, *self) {{ unimplemented!() }}
    #[verifier::external_body] pub fn square_in_place(&mut self) ensures *final(self) == {p}_mul(*old(self), *old(self)) {{ unimplemented!() }}
    #[verifier::external_body] pub fn double(&self) -> (r: Self) ensures r == {p}_add(*self, *self) {{ unimplemented!() }}
    #[verifier::external_body] pub fn inverse(&self) -> (r: Option<Self>) ensures r == {p}_inv(*self) {{ unimplemented!() }}
    #[verifier::external_body] pub fn frobenius_map(&mut self, n: usize) ensures *final(self) == {p}_frob(*old(self), n as int) {{ unimplemented!() }}
}}
''')
    o += [f'#[verifier::external_body] pub broadcast proof fn {t.lower()}_{op}_comm(a: {t}, b: {t}) ensures #[trigger] {t.lower()}_{op}(a, b) == {t.lower()}_{op}(b, a) {{}}' for t in types for op in ('mul', 'add')]
    o.append('}\npub use fld::*;\nbroadcast use {' + ', '.join(f'fld::{t.lower()}_{op}_comm' for t in types for op in ('mul', 'add')) + '};')
    return '\n'.join(o)

def pairing(u, spec):
    """The digits the Miller loop and the exponentiation run through, the sizes of the scratch memories and the curve constants, read
    from the code, with the lemmas that they are the numbers they stand for."""
    o = []
    for fn, name in (('combined_miller_loop_partial', 'ate'), ('exp_by_neg_x_partial', 'naf')):
        b = rsx.get_fn('expanded:' + spec, fn).body
        m = re.search(r'Box::new\(\[([\d\s,]*)\]\)', b)
        if not m: raise Lost(f'{fn}: no literal list of digits')
        v = _ints(m.group(1))
        def tree(a, z):
            if z - a == 1: return f'{v[a]}u8'
            k = (a + z) // 2
            return f'if i < {k} {{ {tree(a, k)} }} else {{ {tree(k, z)} }}'
        o.append(f'pub const {name.upper()}_LEN: usize = {len(v)};\npub open spec fn {name}(i: int) -> u8 {{ {tree(0, len(v))} }}')
        o.append(f'pub fn {name}_at(i: usize) -> (r: u8) ensures i < {len(v)}, r == {name}(i as int) {{ if i >= {len(v)} {{ abort() }} {tree(0, len(v))} }}')
    for n in ('RAMFq2', 'RAMFq6', 'RAMFq12'):
        m = re.search(r'pub type ' + n + r"<'a> = LazyRAM<'a, \w+, (\d+)>;", rsx.load('elusiv/src/state/proof.rs'))
        if not m: raise Lost('elusiv/src/state/proof.rs: type ' + n)
        o.append(f'pub const CAP_{n[3:].upper()}: usize = {m.group(1)};')
    p = 21888242871839275222246405745257275088696311157297823662689037894645226208583
    R = 1 << 256
    n4 = lambda x: 'n4(' + ', '.join(str(x >> 64 * k & (1 << 64) - 1) for k in range(4)) + ')'
    vf = 'elusiv/src/proof/verifier.rs'
    t = rsx.get_const(vf, 'TWO_INV'); l = _ints(re.search(r'BigInteger256::new\(\s*\[(.*?)\]', t, re.S).group(1)) if 'BigInteger256::new' in t else []
    if len(l) != 4: raise Lost(vf + ': TWO_INV has another form')
    c = re.findall(r'"(\d+)"', rsx.get_const(vf, 'COEFF_B'))
    if len(c) != 2: raise Lost(vf + ': COEFF_B has another form')
    o.append(f'''/// the modulus of the base field, the inverse of 2^256, and the constants as they stand in the code
pub open spec fn qq() -> int {{ {n4(p)} }}
pub open spec fn qri() -> int {{ {n4(pow(R, -1, p))} }}
pub open spec fn two_inv_limbs() -> int {{ n4({", ".join(map(str, l))}) }}
pub open spec fn coeff_b0() -> int {{ {n4(int(c[0]))} }}
pub open spec fn coeff_b1() -> int {{ {n4(int(c[1]))} }}
/// TWO_INV is the inverse of 2, COEFF_B = 3 / (9 + u) with u^2 = -1
pub proof fn lemma_constants() ensures 2 * (two_inv_limbs() * qri()) % qq() == 1, qri() * n4(0, 0, 0, 0x1_0000_0000_0000_0000) % qq() == 1, (9 * coeff_b0() - coeff_b1()) % qq() == 3, (coeff_b0() + 9 * coeff_b1()) % qq() == 0, {int(c[0]) < p and int(c[1]) < p and 'true' or 'false'}
{{ assert(2 * (two_inv_limbs() * qri()) % qq() == 1 && qri() * n4(0, 0, 0, 0x1_0000_0000_0000_0000) % qq() == 1 && (9 * coeff_b0() - coeff_b1()) % qq() == 3 && (coeff_b0() + 9 * coeff_b1()) % qq() == 0) by(compute_only); }}''')
    return '\n'.join(o)
