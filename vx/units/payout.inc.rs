// the hash that binds a send to its recipient and data
pub trait Ext { spec fn by(self) -> Seq<u8>; fn put(self, v: &mut Vec<u8>) ensures final(v)@ == old(v)@ + self.by(); }
impl<'a, const N: usize> Ext for &'a [u8; N] { open spec fn by(self) -> Seq<u8> { self@ } #[verifier::external_body] fn put(self, v: &mut Vec<u8>) { v.extend(self) } }
impl<const N: usize> Ext for [u8; N] { open spec fn by(self) -> Seq<u8> { self@ } #[verifier::external_body] fn put(self, v: &mut Vec<u8>) { v.extend(self) } }
impl<'a> Ext for &'a Vec<u8> { open spec fn by(self) -> Seq<u8> { self@ } #[verifier::external_body] fn put(self, v: &mut Vec<u8>) { v.extend(self) } }
#[verifier::external_body] pub fn to_vec_of<const N: usize>(a: &[u8; N]) -> (r: Vec<u8>) ensures r@ == a@ { a.to_vec() }
#[verifier::external_body] pub fn u8_of(b: bool) -> (r: u8) ensures r == if b { 1u8 } else { 0u8 } { u8::from(b) }
//@note to_le_bytes: eight bytes, injective
pub uninterp spec fn le8(n: u64) -> Seq<u8>;
pub axiom fn le8_ax(n: u64, m: u64) ensures le8(n).len() == 8, le8(n) == le8(m) ==> n == m;
#[verifier::external_body] pub fn to_le8v(n: u64) -> (r: [u8; 8]) ensures r@ == le8(n) { n.to_le_bytes() }
//@note sha256 is an uninterpreted function of the bytes
pub uninterp spec fn sha(d: Seq<u8>) -> U256;
#[verifier::external_body] pub fn sha256(d: &Vec<u8>) -> (r: U256) ensures r == sha(d@) { unimplemented!() }
pub struct SendData { pub recipient: U256, pub identifier: U256, pub iv: U256, pub owner: U256, pub reference: U256, pub ata: bool, pub metadata: CommitmentMetadata, pub fee: OptionalFee, pub memo: Seq<u8> }
pub open spec fn one(b: u8) -> Seq<u8> { seq![b] }
/// the bytes that are hashed
pub open spec fn encoding(d: SendData) -> Seq<u8> {
    d.recipient@ + d.identifier@ + d.iv@ + d.owner@ + d.reference@ + one(if d.ata { 1u8 } else { 0u8 }) + d.metadata@ + d.fee.collector.b@ + le8(d.fee.amount) + d.memo
}
pub open spec fn input_hash(d: SendData) -> U256 { let h = sha(encoding(d)); u256_upd(h, 31, (h[31] & 0b11111) as u8) }
pub open spec fn u256_upd(h: U256, i: int, v: u8) -> U256 { vstd::array::spec_array_update(h, i, v) }
pub open spec fn memo_of(m: Option<Vec<u8>>) -> Seq<u8> { match m { Some(v) => v@, None => Seq::empty() } }
pub proof fn lemma_cut(a: Seq<u8>, x: Seq<u8>, b: Seq<u8>, y: Seq<u8>) requires a.len() == b.len(), a + x == b + y ensures a == b, x == y
{
    assert(a =~= (a + x).subrange(0, a.len() as int)); assert(b =~= (b + y).subrange(0, b.len() as int));
    assert(x =~= (a + x).subrange(a.len() as int, (a + x).len() as int)); assert(y =~= (b + y).subrange(b.len() as int, (b + y).len() as int));
}
/// no two different send data are hashed as the same bytes
pub proof fn encoding_injective(a: SendData, b: SendData) requires encoding(a) == encoding(b) ensures a == b
{
    le8_ax(a.fee.amount, b.fee.amount); le8_ax(b.fee.amount, a.fee.amount);
    let a9 = a.recipient@ + a.identifier@ + a.iv@ + a.owner@ + a.reference@ + one(if a.ata { 1u8 } else { 0u8 }) + a.metadata@ + a.fee.collector.b@ + le8(a.fee.amount);
    let b9 = b.recipient@ + b.identifier@ + b.iv@ + b.owner@ + b.reference@ + one(if b.ata { 1u8 } else { 0u8 }) + b.metadata@ + b.fee.collector.b@ + le8(b.fee.amount);
    lemma_cut(a9, a.memo, b9, b.memo);
    let a8 = a.recipient@ + a.identifier@ + a.iv@ + a.owner@ + a.reference@ + one(if a.ata { 1u8 } else { 0u8 }) + a.metadata@ + a.fee.collector.b@;
    let b8 = b.recipient@ + b.identifier@ + b.iv@ + b.owner@ + b.reference@ + one(if b.ata { 1u8 } else { 0u8 }) + b.metadata@ + b.fee.collector.b@;
    lemma_cut(a8, le8(a.fee.amount), b8, le8(b.fee.amount));
    let a7 = a.recipient@ + a.identifier@ + a.iv@ + a.owner@ + a.reference@ + one(if a.ata { 1u8 } else { 0u8 }) + a.metadata@;
    let b7 = b.recipient@ + b.identifier@ + b.iv@ + b.owner@ + b.reference@ + one(if b.ata { 1u8 } else { 0u8 }) + b.metadata@;
    lemma_cut(a7, a.fee.collector.b@, b7, b.fee.collector.b@);
    let a6 = a.recipient@ + a.identifier@ + a.iv@ + a.owner@ + a.reference@ + one(if a.ata { 1u8 } else { 0u8 });
    let b6 = b.recipient@ + b.identifier@ + b.iv@ + b.owner@ + b.reference@ + one(if b.ata { 1u8 } else { 0u8 });
    lemma_cut(a6, a.metadata@, b6, b.metadata@);
    let a5 = a.recipient@ + a.identifier@ + a.iv@ + a.owner@ + a.reference@;
    let b5 = b.recipient@ + b.identifier@ + b.iv@ + b.owner@ + b.reference@;
    lemma_cut(a5, one(if a.ata { 1u8 } else { 0u8 }), b5, one(if b.ata { 1u8 } else { 0u8 }));
    assert(one(if a.ata { 1u8 } else { 0u8 })[0] == one(if b.ata { 1u8 } else { 0u8 })[0]);
    let a4 = a.recipient@ + a.identifier@ + a.iv@ + a.owner@; let b4 = b.recipient@ + b.identifier@ + b.iv@ + b.owner@;
    lemma_cut(a4, a.reference@, b4, b.reference@);
    let a3 = a.recipient@ + a.identifier@ + a.iv@; let b3 = b.recipient@ + b.identifier@ + b.iv@;
    lemma_cut(a3, a.owner@, b3, b.owner@);
    let a2 = a.recipient@ + a.identifier@; let b2 = b.recipient@ + b.identifier@;
    lemma_cut(a2, a.iv@, b2, b.iv@);
    lemma_cut(a.recipient@, a.identifier@, b.recipient@, b.identifier@);
    assert(a.recipient =~= b.recipient && a.identifier =~= b.identifier && a.iv =~= b.iv && a.owner =~= b.owner && a.reference =~= b.reference && a.metadata =~= b.metadata && a.fee.collector.b =~= b.fee.collector.b);
}
//@fn elusiv/src/types.rs generate_hashed_inputs
//@props V05
//@rw recipient\.to_vec\(\) => to_vec_of(recipient)
//@rw data\.extend\((.*?)\); => (\1).put(&mut data);
//@rw u8::from\( => u8_of(
//@rw \.to_le_bytes\(\) => .le8v()
//@rw solana_program::hash::hash\(&data\)\.to_bytes\(\) => sha256(&data)
//@rw hash::hash\(&data\)\.to_bytes\(\) => sha256(&data)
//@rw hash\[31\] &= (\w+); => hash[31] = hash[31] & \1;
//@ret r
//@spec
    ensures r == input_hash(SendData { recipient: *recipient, identifier: *identifier, iv: *iv, owner: *encrypted_owner, reference: *transaction_reference, ata: is_associated_token_account, metadata: *metadata, fee: *optional_fee, memo: memo_of(*memo) })
//@before hash\s*$
    proof {
        let d = SendData { recipient: *recipient, identifier: *identifier, iv: *iv, owner: *encrypted_owner, reference: *transaction_reference, ata: is_associated_token_account, metadata: *metadata, fee: *optional_fee, memo: memo_of(*memo) };
        assert([u8_of_s(d.ata)]@ =~= one(u8_of_s(d.ata)));
        assert(data@ =~= encoding(d));
        assert(hash =~= input_hash(d));
    }
//@end
pub open spec fn u8_of_s(b: bool) -> u8 { if b { 1u8 } else { 0u8 } }
pub trait Le8 { fn le8v(self) -> (r: [u8; 8]); }
impl Le8 for u64 { fn le8v(self) -> (r: [u8; 8]) ensures r@ == le8(self) { to_le8v(self) } }

//@fn elusiv/src/processor/proof.rs minimum_commitment_mt_index
//@props V05
//@rw usize_as_u32_safe\(MT_COMMITMENT_COUNT\) => usize_as_u32_safe(MT_COMMITMENT_COUNT)
//@ret r
//@spec
    requires commitment_count + commitment_queue_len <= u32::MAX, mt_index + (commitment_count + commitment_queue_len) as int / (MT_COMMITMENT_COUNT as int) <= u32::MAX
    ensures r.0 == (commitment_count + commitment_queue_len) as int % (MT_COMMITMENT_COUNT as int), r.1 == mt_index + (commitment_count + commitment_queue_len) as int / (MT_COMMITMENT_COUNT as int)
//@end
//@fn elusiv/src/processor/proof.rs close_verification_pdas
//@world
//@props V07 V08 V09
//@ret r
//@spec
    ensures r is Ok ==> final(w).ev@ =~= closed(old(w).ev@, *verification_account.key, *nullifier_duplicate_account.key, skipped_nullifier_pda, *beneficiary.key)
//@end
pub open spec fn closed(b: Bag, v: Pubkey, n: Pubkey, skip: bool, to: Pubkey) -> Bag { let x = b.insert(Ev::Close { acc: v, to }); if skip { x } else { x.insert(Ev::Close { acc: n, to }) } }
