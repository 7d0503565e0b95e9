//@py ints elusiv/src/state/metadata.rs VALUES_PER_METADATA_CHILD_ACCOUNT ACCOUNTS_COUNT
//@note child accounts of a parent: an optional payload per slot, reached only through execute_on_child_account (G02); copying into the range a..b of the payload is child_copy(a, b)
pub struct MetadataAccount { pub next_metadata_ptr: u32, pub children: Ghost<Seq<Option<Seq<u8>>>> }
pub open spec fn mwf(s: &MetadataAccount) -> bool {
    s.children@.len() == ACCOUNTS_COUNT
    && forall|i: int| 0 <= i < ACCOUNTS_COUNT && (#[trigger] s.children@[i]) is Some ==> s.children@[i]->Some_0.len() == VALUES_PER_METADATA_CHILD_ACCOUNT * MSIZE
}
pub open spec fn splice(d: Seq<u8>, a: int, v: Seq<u8>) -> Seq<u8> { d.subrange(0, a) + v + d.subrange(a + v.len(), d.len() as int) }
impl MetadataAccount {
    #[verifier::external_body] pub fn get_next_metadata_ptr(&self) -> (r: u32) ensures r == self.next_metadata_ptr { unimplemented!() }
    #[verifier::external_body] pub fn set_next_metadata_ptr(&mut self, v: &u32) ensures *final(self) == (MetadataAccount { next_metadata_ptr: *v, ..*old(self) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn child_copy(&mut self, i: usize, a: usize, b: usize, v: &CommitmentMetadata) -> (r: Result<(), ProgramError>)
        requires mwf(old(self))
        ensures r is Ok <==> i < ACCOUNTS_COUNT && old(self).children@[i as int] is Some,
            r is Err ==> *final(self) == *old(self),
            r is Ok ==> b == a + MSIZE && b <= VALUES_PER_METADATA_CHILD_ACCOUNT * MSIZE
                && final(self).children@ == old(self).children@.update(i as int, Some(splice(old(self).children@[i as int]->Some_0, a as int, v@)))
                && *final(self) == (MetadataAccount { children: final(self).children, ..*old(self) })
    { unimplemented!() }
}
pub open spec fn child_of(p: int) -> int { p / (VALUES_PER_METADATA_CHILD_ACCOUNT as int) }
pub open spec fn off_of(p: int) -> int { (p % (VALUES_PER_METADATA_CHILD_ACCOUNT as int)) * MSIZE }
pub open spec fn at(s: &MetadataAccount, p: int) -> Seq<u8> { s.children@[child_of(p)]->Some_0.subrange(off_of(p), off_of(p) + MSIZE) }
pub open spec fn total() -> int { VALUES_PER_METADATA_CHILD_ACCOUNT * ACCOUNTS_COUNT }
pub proof fn lemma_slot(p: int) requires 0 <= p < total()
    ensures 0 <= child_of(p) < ACCOUNTS_COUNT, 0 <= off_of(p), off_of(p) + MSIZE <= VALUES_PER_METADATA_CHILD_ACCOUNT * MSIZE
{ let v = VALUES_PER_METADATA_CHILD_ACCOUNT as int; lemma_fundamental_div_mod(p, v); lemma_mod_bound(p, v); }
impl MetadataAccount {
//@fn elusiv/src/state/metadata.rs in "impl<'a, 'b, 't> MetadataAccount" child_account_and_local_index
//@ret r
//@spec
    ensures r.0 == child_of(metadata_index as int), r.1 == metadata_index as int % (VALUES_PER_METADATA_CHILD_ACCOUNT as int)
//@end
//@fn elusiv/src/state/metadata.rs in "impl<'a, 'b, 't> MetadataAccount" add_commitment_metadata
//@rw CommitmentMetadata::SIZE => MSIZE
//@rw self\.execute_on_child_account_mut\((\w+), \|data\| \{\s*let offset = ([^;]*);\s*let slice = &mut data\[([^\[\]]*?)\.\.([^\[\]]*?)\];\s*slice\.copy_from_slice\(&(\w+)\[\.\.\]\);\s*\}\) => { let offset = \2; self.child_copy(\1, \3, \4, \5) }
//@ret r
//@spec
    requires mwf(old(self)), old(self).next_metadata_ptr < u32::MAX
    ensures ({
        let p = old(self).next_metadata_ptr as int;
        &&& (r is Err ==> *final(self) == *old(self))
        &&& (r is Ok <==> p < total() && old(self).children@[child_of(p)] is Some)
        &&& (r is Ok ==> mwf(final(self)) && final(self).next_metadata_ptr == p + 1 && at(final(self), p) == metadata@
            && (forall|i: int| 0 <= i < ACCOUNTS_COUNT ==> (#[trigger] final(self).children@[i] is Some <==> old(self).children@[i] is Some))
            && forall|q: int| 0 <= q < total() && q != p && old(self).children@[child_of(q)] is Some ==> #[trigger] at(final(self), q) == at(old(self), q))
    })
//@top
    let ghost s0 = *self;
    proof {
        let p = self.next_metadata_ptr as int; let v = VALUES_PER_METADATA_CHILD_ACCOUNT as int;
        lemma_fundamental_div_mod(p, v); lemma_mod_bound(p, v);
        if p < total() { lemma_slot(p); }
    }
//@before Ok\(\(\)\)\s*$
    proof {
        let p = s0.next_metadata_ptr as int;
        lemma_slot(p);
        assert(at(self, p) =~= metadata@);
        assert forall|q: int| 0 <= q < total() && q != p && s0.children@[child_of(q)] is Some implies #[trigger] at(self, q) == at(&s0, q) by {
            lemma_slot(q);
            let v = VALUES_PER_METADATA_CHILD_ACCOUNT as int;
            lemma_fundamental_div_mod(p, v); lemma_fundamental_div_mod(q, v);
            assert(at(self, q) =~= at(&s0, q));
        }
    }
//@end
}
