pub type TokenID = u16;
#[derive(Clone, Copy)]
pub struct Pubkey { pub b: [u8; 32] }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Pubkey { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for Pubkey { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { self.b == o.b } }
impl Pubkey { #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r == self.b { self.b } }
#[derive(Clone, Copy)]
pub struct ElusivToken { pub mint: Pubkey, pub decimals: u8, pub price_base_exp: u8, pub pyth_usd_price_key: Pubkey, pub min: u64, pub max: u64 }
//@py token_consts
//@note TOKENS: the table generated from Token.toml is an uninterpreted function of the index, only its length is read from Token.toml
pub uninterp spec fn token_spec(i: int) -> ElusivToken;
#[verifier::external_body]
pub fn tokens_at(i: usize) -> (r: ElusivToken) ensures i < TOKENS_LEN, r == token_spec(i as int) { unimplemented!() }

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NonZeroU16 { pub v: u16 }
impl NonZeroU16 {
    pub fn new(v: u16) -> (r: Option<NonZeroU16>) ensures r == (if v == 0 { None::<NonZeroU16> } else { Some(NonZeroU16 { v }) }) { if v == 0 { None } else { Some(NonZeroU16 { v }) } }
    pub fn get(&self) -> (r: u16) ensures r == self.v { self.v }
}
impl TryNum for i64 { type O = u64; open spec fn fits(self) -> bool { self >= 0 } open spec fn tv(self) -> u64 { self as u64 } fn try_num(self) -> (r: Result<u64, ()>) { if self >= 0 { Ok(self as u64) } else { Err(()) } } }
impl TryNum for u64 { type O = i64; open spec fn fits(self) -> bool { self <= i64::MAX } open spec fn tv(self) -> i64 { self as i64 } fn try_num(self) -> (r: Result<i64, ()>) { if self <= i64::MAX as u64 { Ok(self as i64) } else { Err(()) } } }
pub trait OrErr: Sized { type X; spec fn okk(self) -> Option<Self::X>; fn or_err<F>(self, e: F) -> (r: Result<Self::X, F>) ensures r == (match self.okk() { Some(x) => Ok::<Self::X, F>(x), None => Err::<Self::X, F>(e) }); }
impl<X, Y> OrErr for Result<X, Y> { type X = X; open spec fn okk(self) -> Option<X> { match self { Ok(x) => Some(x), Err(_) => None } } fn or_err<F>(self, e: F) -> (r: Result<X, F>) { match self { Ok(x) => Ok(x), Err(_) => Err(e) } } }

//@note pyth_sdk Price::{mul, cmul, get_price_in_quote, scale_to_exponent}: external, uninterpreted functions of their arguments (may also panic)
#[derive(Clone, Copy)]
pub struct Price { pub price: i64, pub conf: u64, pub expo: i32 }
pub uninterp spec fn p_mul(a: Price, b: Price) -> Option<Price>;
pub uninterp spec fn p_quote(a: Price, b: Price, e: i32) -> Option<Price>;
pub uninterp spec fn p_scale(a: Price, e: i32) -> Option<Price>;
pub open spec fn p_const(p: int, e: int) -> Price { Price { price: p as i64, conf: 0, expo: e as i32 } }
impl Price {
    #[verifier::external_body] pub fn mul(&self, o: &Price) -> (r: Option<Price>) ensures r == p_mul(*self, *o) { unimplemented!() }
    #[verifier::external_body] pub fn cmul(&self, c: i64, e: i32) -> (r: Option<Price>) ensures r == p_mul(*self, p_const(c as int, e as int)) { unimplemented!() }
    #[verifier::external_body] pub fn get_price_in_quote(&self, o: &Price, e: i32) -> (r: Option<Price>) ensures r == p_quote(*self, *o, e) { unimplemented!() }
    #[verifier::external_body] pub fn scale_to_exponent(&self, e: i32) -> (r: Option<Price>) ensures r == p_scale(*self, e) { unimplemented!() }
}

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Lamports(pub u64);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct SPLToken { pub id: NonZeroU16, pub amount: u64 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Token { Lamports(Lamports), SPLToken(SPLToken) }

pub open spec fn tok(id: int, amount: int) -> Token {
    if id == 0 { Token::Lamports(Lamports(amount as u64)) } else { Token::SPLToken(SPLToken { id: NonZeroU16 { v: id as u16 }, amount: amount as u64 }) }
}
impl Token {
    pub open spec fn id_s(&self) -> int { match *self { Token::Lamports(_) => 0, Token::SPLToken(t) => t.id.v as int } }
    pub open spec fn am_s(&self) -> int { match *self { Token::Lamports(l) => l.0 as int, Token::SPLToken(t) => t.amount as int } }
    /// NonZeroU16 is never zero
    pub open spec fn wf(&self) -> bool { match *self { Token::Lamports(_) => true, Token::SPLToken(t) => t.id.v != 0 } }
}
pub open spec fn sum_s(a: Token, b: Token) -> Option<Token> { if a.id_s() == b.id_s() && a.am_s() + b.am_s() <= u64::MAX { Some(tok(a.id_s(), a.am_s() + b.am_s())) } else { None } }
pub open spec fn dif_s(a: Token, b: Token) -> Option<Token> { if a.id_s() == b.id_s() && a.am_s() >= b.am_s() { Some(tok(a.id_s(), a.am_s() - b.am_s())) } else { None } }

//@fn shared/elusiv-types/src/tokens.rs elusiv_token
//@rw TOKENS\[([^\]]*)\] => tokens_at(\1)
//@ret r
//@spec
    ensures r is Ok <==> token_id < TOKENS_LEN, r is Ok ==> r->Ok_0 == token_spec(token_id as int)
//@end
impl SPLToken {
//@fn shared/elusiv-types/src/tokens.rs in "impl SPLToken" new
//@ret r
//@spec
    ensures r is Ok <==> token_id != 0, r is Ok ==> r->Ok_0 == (SPLToken { id: NonZeroU16 { v: token_id }, amount })
//@end
}
impl Token {
//@fn shared/elusiv-types/src/tokens.rs in "impl Token" new
//@props F03
//@ret r
//@spec
    ensures r == tok(token_id as int, amount as int), r.wf()
//@end
//@fn shared/elusiv-types/src/tokens.rs in "impl Token" new_checked
//@props F03
//@rw TOKENS\.len\(\) => TOKENS_LEN
//@rw TOKENS\[([^\]]*)\] => tokens_at(\1)
//@ret r
//@spec
    ensures
        r is Ok <==> token_id < TOKENS_LEN && token_spec(token_id as int).min <= amount <= token_spec(token_id as int).max,
        r is Ok ==> r->Ok_0 == tok(token_id as int, amount as int) && r->Ok_0.wf()
//@end
//@fn shared/elusiv-types/src/tokens.rs in "impl Token" token_id
//@ret r
//@spec
    ensures r == self.id_s()
//@end
//@fn shared/elusiv-types/src/tokens.rs in "impl Token" amount
//@ret r
//@spec
    ensures r == self.am_s()
//@end
//@fn shared/elusiv-types/src/tokens.rs in "impl Token" into_lamports
//@ret r
//@spec
    ensures r is Ok <==> *self is Lamports, r is Ok ==> r->Ok_0 == self->Lamports_0
//@end
//@fn shared/elusiv-types/src/tokens.rs in "impl Token" enforce_token_equality
//@props F03
//@ret r
//@spec
    ensures r is Ok <==> self.id_s() == other.id_s(), r is Ok ==> r->Ok_0 == self.id_s()
//@end
//@fn shared/elusiv-types/src/tokens.rs in "impl Token" new_from_price
//@props F04
//@rw \.try_into\(\) => .try_num()
//@rw \.or\(Err\((.*?)\)\)\? => .or_err(\1)?
//@ret r
//@spec
    ensures
        r is Ok ==> ({
            let p = p_scale(price, price_expo(token_id as int));
            p is Some && p->Some_0.price >= 0 && r->Ok_0 == tok(token_id as int, p->Some_0.price as int) && r->Ok_0.wf()
            && (token_id == 0 || token_id < TOKENS_LEN)
            && (check_amount ==> token_id < TOKENS_LEN && token_spec(token_id as int).min <= p->Some_0.price <= token_spec(token_id as int).max)
        }),
        r is Err ==> (token_id != 0 && token_id >= TOKENS_LEN) || check_amount || p_scale(price, price_expo(token_id as int)) is None || p_scale(price, price_expo(token_id as int))->Some_0.price < 0,
//@end
}
/// the power of ten a currency's amounts are counted in
pub open spec fn price_expo(id: int) -> i32 { if id == 0 { 0i32 } else { (-(token_spec(id).decimals as int)) as i32 } }
impl vstd::std_specs::ops::AddSpecImpl for Token {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Self) -> bool { true }
    open spec fn add_spec(self, rhs: Self) -> Result<Token, TokenError> { arbitrary() }
}
impl vstd::std_specs::ops::SubSpecImpl for Token {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: Self) -> bool { true }
    open spec fn sub_spec(self, rhs: Self) -> Result<Token, TokenError> { arbitrary() }
}
impl core::ops::Add for Token {
    type Output = Result<Self, TokenError>;
//@fn shared/elusiv-types/src/tokens.rs in "impl Add for Token" add
//@props F03
//@sig fn add(self, rhs: Self) -> Result<Self, TokenError>
//@ret r
//@spec
    ensures r is Ok <==> sum_s(self, rhs) is Some, r is Ok ==> r->Ok_0 == sum_s(self, rhs)->Some_0 && r->Ok_0.wf()
//@end
}
impl core::ops::Sub for Token {
    type Output = Result<Self, TokenError>;
//@fn shared/elusiv-types/src/tokens.rs in "impl Sub for Token" sub
//@props F03
//@sig fn sub(self, rhs: Self) -> Result<Self, TokenError>
//@ret r
//@spec
    ensures r is Ok <==> dif_s(self, rhs) is Some, r is Ok ==> r->Ok_0 == dif_s(self, rhs)->Some_0 && r->Ok_0.wf()
//@end
}
impl vstd::std_specs::ops::AddSpecImpl for Lamports {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Self) -> bool { true }
    open spec fn add_spec(self, rhs: Self) -> Result<Lamports, TokenError> { arbitrary() }
}
impl core::ops::Add for Lamports {
    type Output = Result<Self, TokenError>;
//@fn shared/elusiv-types/src/tokens.rs in "impl Add for Lamports" add
//@props F03
//@sig fn add(self, rhs: Self) -> Result<Self, TokenError>
//@ret r
//@spec
    ensures r is Ok <==> self.0 + rhs.0 <= u64::MAX, r is Ok ==> r->Ok_0.0 == self.0 + rhs.0
//@end
}
pub struct TokenPrice { pub lamports_usd: Price, pub token_usd: Price, pub token_id: TokenID }
/// the quoted conversion of lamports into a token
pub open spec fn convert(p: &TokenPrice, l: int, id: int) -> Option<Token> {
    if id == 0 { Some(tok(0, l)) } else {
        let usd = p_mul(p.lamports_usd, p_const(l, 0));
        let q = p_quote(usd->Some_0, p.token_usd, price_expo(id));
        let s = p_scale(q->Some_0, price_expo(id));
        if l <= i64::MAX && usd is Some && q is Some && s is Some && s->Some_0.price >= 0 { Some(tok(id, s->Some_0.price as int)) } else { None }
    }
}
pub open spec fn convert_back(p: &TokenPrice, t: Token) -> Option<int> {
    if t.id_s() == 0 { Some(t.am_s()) } else {
        let usd = p_mul(p.token_usd, p_const(t.am_s(), price_expo(t.id_s()) as int));
        let q = p_quote(usd->Some_0, p.lamports_usd, 0);
        let s = p_scale(q->Some_0, 0);
        if t.am_s() <= i64::MAX && usd is Some && q is Some && s is Some && s->Some_0.price >= 0 { Some(s->Some_0.price as int) } else { None }
    }
}
impl TokenPrice {
//@fn shared/elusiv-types/src/tokens.rs in "impl TokenPrice" new_lamports
//@ret r
//@spec
    ensures r.token_id == 0
//@end
//@fn shared/elusiv-types/src/tokens.rs in "impl TokenPrice" new_from_price
//@props F04
//@ret r
//@spec
    ensures r.token_id == token_id, token_id != 0 ==> r == (TokenPrice { lamports_usd, token_usd, token_id })
//@end
//@fn shared/elusiv-types/src/tokens.rs in "impl TokenPrice" new_from_sol_price
//@props F04
//@ret r
//@spec
    ensures r is Ok ==> r->Ok_0.token_id == token_id,
        token_id != 0 ==> (r is Ok <==> p_mul(sol_usd, p_const(1, -(token_spec(0).price_base_exp as int))) is Some),
        r is Ok && token_id != 0 ==> r->Ok_0 == (TokenPrice { lamports_usd: p_mul(sol_usd, p_const(1, -(token_spec(0).price_base_exp as int)))->Some_0, token_usd, token_id }),
//@end
//@fn shared/elusiv-types/src/tokens.rs in "impl TokenPrice" token_into_lamports
//@props F04
//@rw \.try_into\(\) => .try_num()
//@ret r
//@spec
    requires token.wf()
    ensures r is Ok ==> token.id_s() == self.token_id && convert_back(self, token) == Some(r->Ok_0.0 as int),
        r is Err ==> token.id_s() != self.token_id || self.token_id >= TOKENS_LEN || convert_back(self, token) is None
//@end
//@fn shared/elusiv-types/src/tokens.rs in "impl TokenPrice" lamports_into_token
//@props F04
//@rw \.try_into\(\) => .try_num()
//@ret r
//@spec
    ensures r is Ok ==> token_id == self.token_id && convert(self, lamports.0 as int, token_id as int) == Some(r->Ok_0) && r->Ok_0.wf(),
        r is Err ==> token_id != self.token_id || token_id >= TOKENS_LEN || convert(self, lamports.0 as int, token_id as int) is None
//@end
}
impl Lamports {
//@fn shared/elusiv-types/src/tokens.rs in "impl Lamports" into_token
//@props F04
//@ret r
//@spec
    ensures r is Ok ==> token_id == price.token_id && convert(price, self.0 as int, token_id as int) == Some(r->Ok_0) && r->Ok_0.wf(),
        r is Err ==> token_id != price.token_id || token_id >= TOKENS_LEN || convert(price, self.0 as int, token_id as int) is None
//@end
//@fn shared/elusiv-types/src/tokens.rs in "impl Lamports" into_token_strict
//@props F04
//@ret r
//@spec
    ensures r == Token::Lamports(*self)
//@end
}
