pub struct UnverifiedAccountInfo<'a, 'b> { pub account_info: &'a AccountInfo<'b>, pub is_verified: bool }
impl<'a, 'b> UnverifiedAccountInfo<'a, 'b> {
//@fn shared/elusiv-types/src/accounts.rs in "impl<'a, 'b> UnverifiedAccountInfo<'a, 'b>" get_unsafe
//@props G06 W01
//@ret r
//@spec
    ensures r == self.account_info
//@end
//@fn shared/elusiv-types/src/accounts.rs in "impl<'a, 'b> UnverifiedAccountInfo<'a, 'b>" get_safe
//@props G06 W01
//@ret r
//@spec
    ensures r is Ok <==> self.is_verified, r is Ok ==> r->Ok_0 == self.account_info
//@end
//@fn shared/elusiv-types/src/accounts.rs in "impl<'a, 'b> UnverifiedAccountInfo<'a, 'b>" set_is_verified
//@props G06 W01
//@spec
    ensures final(self).is_verified, final(self).account_info == old(self).account_info
//@end
//@fn shared/elusiv-types/src/accounts.rs in "impl<'a, 'b> UnverifiedAccountInfo<'a, 'b>" get_unsafe_and_set_is_verified
//@props G06 W01
//@ret r
//@spec
    ensures final(self).is_verified, final(self).account_info == old(self).account_info, r == old(self).account_info
//@end
}
