//@py werrors
//@note Clock::get: the time of the transaction, an uninterpreted constant
pub uninterp spec fn now() -> i64;
pub uninterp spec fn clock_ok() -> bool;
pub struct Clock { pub unix_timestamp: i64 }
impl Clock { #[verifier::external_body] pub fn get() -> (r: Result<Clock, ProgramError>) ensures r is Ok <==> clock_ok(), r is Ok ==> r->Ok_0.unix_timestamp == now() { unimplemented!() } }
/// Into of options and errors
pub trait Eo: Sized { type T; spec fn eos(self, r: Self::T) -> bool; fn eo(self) -> (r: Self::T) ensures self.eos(r); }
impl<N: Copy> Eo for Option<N> { type T = ElusivOption<N>; open spec fn eos(self, r: ElusivOption<N>) -> bool { opt(r) == self } fn eo(self) -> (r: ElusivOption<N>) { ElusivOption::from(self) } }
impl Eo for ElusivWardenNetworkError { type T = ProgramError; open spec fn eos(self, r: ProgramError) -> bool { true } fn eo(self) -> (r: ProgramError) { ProgramError::from(self) } }
impl Pubkey { pub fn new_from_array(b: [u8; 32]) -> (r: Pubkey) ensures r.b == b { Pubkey { b } } }
pub fn bool_not(b: bool) -> (r: bool) ensures r == !b { !b }
#[derive(Clone, Copy)] pub struct Ipv4Addr { pub x: [u8; 4] }
pub const SPL_MAX: usize = 0;
pub type ElusivWardenID = u32;
#[derive(Clone, Copy)]
//@py sitem elusiv-warden-network/src/warden.rs "struct FixedLenString"
pub type Identifier = FixedLenString<256>;
pub type ApaReason = FixedLenString<512>;
#[derive(Clone, Copy)]
//@item elusiv-warden-network/src/warden.rs "struct WardenFeatures"
#[derive(Clone, Copy)]
//@item elusiv-warden-network/src/warden.rs "struct BasicWardenFeatures"
#[derive(Clone, Copy)]
//@item elusiv-warden-network/src/warden.rs "enum TlsMode"
#[derive(Clone, Copy)]
//@item elusiv-warden-network/src/warden.rs "struct Timezone"
#[derive(Clone, Copy)]
//@item elusiv-warden-network/src/warden.rs "enum WardenRegion"
//@py eqspec Timezone WardenRegion
#[derive(Clone, Copy)]
//@py sitem elusiv-warden-network/src/warden.rs "struct ElusivBasicWardenConfig" "TOKENS\.len\(\)=>TOKENS_LEN"
#[derive(Clone, Copy)]
//@py sitem elusiv-warden-network/src/warden.rs "struct ElusivBasicWarden {"
//@py network_sizes elusiv-warden-network/src/network.rs
//@item elusiv-warden-network/src/network.rs "enum NetworkSize"
impl NetworkSize {
//@fn elusiv-warden-network/src/network.rs in "impl NetworkSize" max
//@props W01 W05
//@ret r
//@spec
    ensures r == (match *self { NetworkSize::Fixed(m) => m, NetworkSize::Dynamic(_, m) => m })
//@end
}
//@py xaccessors elusiv-warden-network/src/warden.rs "struct WardensAccount"
//@py xaccessors elusiv-warden-network/src/warden.rs "struct BasicWardenAccount"
//@py xaccessors elusiv-warden-network/src/warden.rs "struct BasicWardenMapAccount"
//@py xaccessors elusiv-warden-network/src/warden.rs "struct BasicWardenAttesterMapAccount"
//@py xaccessors elusiv-warden-network/src/warden.rs "struct ApaWardenAccount"
//@py xaccessors elusiv-warden-network/src/operator.rs "struct WardenOperatorAccount"
//@py xaccessors elusiv-warden-network/src/network.rs "struct BasicWardenNetworkAccount" "" "TOKENS\.len\(\)=>TOKENS_LEN" "(\w+)::SIZE\.max\(\)=>\1_MAX"
//@py xaccessors elusiv-warden-network/src/network.rs "struct ApaWardenNetworkAccount" "" "(\w+)::SIZE\.max\(\)=>\1_MAX"
impl PDAAccount for BasicWardenAccount { open spec fn kind() -> int { 20 } }
impl PDAAccount for BasicWardenMapAccount { open spec fn kind() -> int { 21 } }
impl PDAAccount for BasicWardenAttesterMapAccount { open spec fn kind() -> int { 22 } }
impl PDAAccount for ApaWardenAccount { open spec fn kind() -> int { 23 } }
impl PDAAccount for WardenOperatorAccount { open spec fn kind() -> int { 24 } }
impl PDAAccount for BasicWardenStatsAccount { open spec fn kind() -> int { 25 } }
impl PDAAccount for ApaProposalAccount { open spec fn kind() -> int { 26 } }
impl PDAAccount for ApaTargetMapAccount { open spec fn kind() -> int { 27 } }
//@const elusiv-warden-network/src/warden.rs HALF_QUOTE_SIZE
//@const elusiv-warden-network/src/warden.rs FULL_QUOTE_SIZE
pub struct Quote(pub [u8; FULL_QUOTE_SIZE]);
#[derive(Clone, Copy)] pub struct QuoteStart(pub [u8; HALF_QUOTE_SIZE]);
#[derive(Clone, Copy)] pub struct QuoteEnd(pub [u8; HALF_QUOTE_SIZE]);
//@item elusiv-warden-network/src/apa.rs "enum ApaLevel"
//@item elusiv-warden-network/src/apa.rs "enum ApaProponentRole"
//@item elusiv-warden-network/src/apa.rs "struct ApaProposal {"
//@py xaccessors elusiv-warden-network/src/apa.rs "struct ApaProposalAccount"
//@py xaccessors elusiv-warden-network/src/apa.rs "struct ApaTargetMapAccount"
//@py xaccessors elusiv-warden-network/src/apa.rs "struct ApaProposalsAccount"
#[derive(Clone, Copy)]
//@item elusiv-warden-network/src/warden.rs "struct WardenStatistics"
//@py xaccessors elusiv-warden-network/src/warden.rs "struct BasicWardenStatsAccount"
//@fn elusiv-warden-network/src/processor/utils.rs current_timestamp
//@props W01 W02 W03 W06
//@rw \.try_into\(\) => .try_num()
//@ret r
//@spec
    ensures r is Ok <==> clock_ok(), r is Ok ==> now() >= 0 && r->Ok_0 == now()
//@end
