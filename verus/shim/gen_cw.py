# writes cosmwasm.rs: contracts assumed for cosmwasm-std, cw-storage-plus, cw-utils, cw2, osmosis-std
o=[]; P=o.append
P('''use vstd::prelude::*;
verus! {
pub mod cosmwasm_std {
use vstd::prelude::*;
use crate::vx::*;
pub use crate::cw_msgs::*;

pub struct Empty {}
#[verifier::external_body]
pub fn entry_point() { unimplemented!() }

// ---- errors (opaque)
#[verifier::external_body] pub struct StdError { s: String }
impl StdError {
    #[verifier::external_body] pub fn generic_err<M>(m: M) -> StdError { unimplemented!() }
    #[verifier::external_body] pub fn not_found<M>(m: M) -> StdError { unimplemented!() }
    #[verifier::external_body] pub fn overflow(m: OverflowError) -> StdError { unimplemented!() }
    #[verifier::external_body] pub fn divide_by_zero(m: DivideByZeroError) -> StdError { unimplemented!() }
    #[verifier::external_body] pub fn parse_err<M, N>(m: M, n: N) -> StdError { unimplemented!() }
    #[verifier::external_body] pub fn serialize_err<M, N>(m: M, n: N) -> StdError { unimplemented!() }
    #[verifier::external_body] pub fn invalid_utf8<M>(m: M) -> StdError { unimplemented!() }
}
pub type StdResult<T> = Result<T, StdError>;
''')
for e in ['OverflowError','DivideByZeroError','CheckedFromRatioError','CheckedMultiplyRatioError','CheckedMultiplyFractionError','VerificationError','ConversionOverflowError','RecoverPubkeyError','DecimalRangeExceeded']:
    P(f'#[verifier::external_body] pub struct {e} {{ s: String }}\nimpl VxDisplay for {e} {{ uninterp spec fn vx_disp(&self) -> Seq<char>; }}\n')
for e in ['OverflowError','DivideByZeroError','VerificationError','ConversionOverflowError','RecoverPubkeyError']:
    P(f'impl From<{e}> for StdError {{ #[verifier::external_body] fn from(e: {e}) -> (r: Self) {{ unimplemented!() }} }}\nimpl VxFrom<{e}> for StdError {{ open spec fn vx_from_spec(a: {e}, r: Self) -> bool {{ true }} #[verifier::external_body] fn vx_from(a: {e}) -> (r: Self) {{ unimplemented!() }} }}\n')
P('impl VxDisplay for StdError { uninterp spec fn vx_disp(&self) -> Seq<char>; }\n')
P('''
// ---- Uint128
pub struct Uint128 { pub v: u128 }
impl Copy for Uint128 {}
impl Clone for Uint128 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VxClone for Uint128 { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxDefault for Uint128 { open spec fn vx_is_default(r: Self) -> bool { r.v == 0 } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl VxDisplay for Uint128 { open spec fn vx_disp(&self) -> Seq<char> { int_str(self.v as int) } }
pub open spec fn e18() -> int { 1_000_000_000_000_000_000 }
pub closed spec fn fdiv(a: int, b: int) -> int { a / b }
// floor(a * b / c) and ceil(a * b / c)
pub open spec fn mfloor(a: int, b: int, c: int) -> int { (a * b) / c }
pub open spec fn mceil(a: int, b: int, c: int) -> int { if (a * b) % c == 0 { (a * b) / c } else { (a * b) / c + 1 } }
impl Uint128 {
    pub const MAX: Uint128 = Uint128 { v: u128::MAX };
    #[verifier::external_body] pub const fn new(v: u128) -> (r: Self) ensures r.v == v { unimplemented!() }
    #[verifier::external_body] pub const fn zero() -> (r: Self) ensures r.v == 0 { unimplemented!() }
    #[verifier::external_body] pub const fn one() -> (r: Self) ensures r.v == 1 { unimplemented!() }
    #[verifier::external_body] pub const fn u128(&self) -> (r: u128) ensures r == self.v { unimplemented!() }
    #[verifier::external_body] pub const fn is_zero(&self) -> (r: bool) ensures r == (self.v == 0) { unimplemented!() }
    #[verifier::external_body] pub fn vx_max(self, o: Self) -> (r: Self) ensures r.v == if self.v >= o.v { self.v } else { o.v } { unimplemented!() }
    #[verifier::external_body] pub fn vx_min(self, o: Self) -> (r: Self) ensures r.v == if self.v <= o.v { self.v } else { o.v } { unimplemented!() }
    #[verifier::external_body] pub fn vx_abs_diff(self, o: Self) -> (r: Self) ensures r.v == if self.v >= o.v { self.v - o.v } else { o.v - self.v } { unimplemented!() }
    #[verifier::external_body] pub fn vx_checked_add(self, o: Self) -> (r: Result<Self, OverflowError>) ensures r is Ok == (self.v + o.v <= u128::MAX), r is Ok ==> r->Ok_0.v == self.v + o.v { unimplemented!() }
    #[verifier::external_body] pub fn vx_checked_sub(self, o: Self) -> (r: Result<Self, OverflowError>) ensures r is Ok == (self.v >= o.v), r is Ok ==> r->Ok_0.v == self.v - o.v { unimplemented!() }
    #[verifier::external_body] pub fn vx_checked_mul(self, o: Self) -> (r: Result<Self, OverflowError>) ensures r is Ok == (self.v * o.v <= u128::MAX), r is Ok ==> r->Ok_0.v == self.v * o.v { unimplemented!() }
    #[verifier::external_body] pub fn vx_checked_div(self, o: Self) -> (r: Result<Self, DivideByZeroError>) ensures r is Ok == (o.v != 0), r is Ok ==> r->Ok_0.v == self.v as int / o.v as int { unimplemented!() }
    #[verifier::external_body] pub fn vx_saturating_sub(self, o: Self) -> (r: Self) ensures r.v == if self.v >= o.v { (self.v - o.v) as int } else { 0 } { unimplemented!() }
    #[verifier::external_body] pub fn vx_saturating_add(self, o: Self) -> (r: Self) ensures r.v == if self.v + o.v <= u128::MAX { (self.v + o.v) as int } else { u128::MAX as int } { unimplemented!() }
    #[verifier::external_body] pub fn wrapping_sub(self, o: Self) -> (r: Self) ensures self.v >= o.v ==> r.v == self.v - o.v { unimplemented!() }
    #[verifier::external_body] pub fn wrapping_add(self, o: Self) -> (r: Self) ensures self.v + o.v <= u128::MAX ==> r.v == self.v + o.v { unimplemented!() }
    #[verifier::external_body] pub fn checked_multiply_ratio<A: VxRatio, B: VxRatio>(&self, n: A, d: B) -> (r: Result<Self, CheckedMultiplyRatioError>) ensures r is Ok == (d.vx_n() != 0 && mfloor(self.v as int, n.vx_n(), d.vx_n()) <= u128::MAX), r is Ok ==> r->Ok_0.v == mfloor(self.v as int, n.vx_n(), d.vx_n()) { unimplemented!() }
    #[verifier::external_body] pub fn multiply_ratio<A: VxRatio, B: VxRatio>(&self, n: A, d: B) -> (r: Self) ensures d.vx_n() != 0, r.v == mfloor(self.v as int, n.vx_n(), d.vx_n()) { unimplemented!() }
    #[verifier::external_body] pub fn mul_floor<F: VxFrac>(self, d: F) -> (r: Self) ensures d.vx_den() != 0, r.v == mfloor(self.v as int, d.vx_num(), d.vx_den()) { unimplemented!() }
    #[verifier::external_body] pub fn mul_ceil<F: VxFrac>(self, d: F) -> (r: Self) ensures d.vx_den() != 0, r.v == mceil(self.v as int, d.vx_num(), d.vx_den()) { unimplemented!() }
    #[verifier::external_body] pub fn checked_mul_floor<F: VxFrac>(self, d: F) -> (r: Result<Self, CheckedMultiplyFractionError>) ensures r is Ok ==> d.vx_den() != 0 && r->Ok_0.v == mfloor(self.v as int, d.vx_num(), d.vx_den()) { unimplemented!() }
    #[verifier::external_body] pub fn checked_mul_ceil<F: VxFrac>(self, d: F) -> (r: Result<Self, CheckedMultiplyFractionError>) ensures r is Ok ==> d.vx_den() != 0 && r->Ok_0.v == mceil(self.v as int, d.vx_num(), d.vx_den()) { unimplemented!() }
    #[verifier::external_body] pub fn div_floor(self, d: Decimal) -> (r: Self) ensures d.v != 0, r.v == mfloor(self.v as int, e18(), d.v as int) { unimplemented!() }
    #[verifier::external_body] pub fn div_ceil(self, d: Decimal) -> (r: Self) ensures d.v != 0, r.v == mceil(self.v as int, e18(), d.v as int) { unimplemented!() }
    #[verifier::external_body] pub fn checked_div_floor(self, d: Decimal) -> (r: Result<Self, CheckedMultiplyFractionError>) ensures r is Ok ==> d.v != 0 && r->Ok_0.v == mfloor(self.v as int, e18(), d.v as int) { unimplemented!() }
    #[verifier::external_body] pub fn checked_rem(self, o: Uint128) -> (r: Result<Uint128, DivideByZeroError>) ensures r is Ok == (o.v != 0), r is Ok ==> r->Ok_0.v == self.v as int % o.v as int { unimplemented!() }
    #[verifier::external_body] pub fn vx_pow(self, n: u32) -> (r: Uint128) ensures r.v == ipow(self.v as int, n as nat) { unimplemented!() }
    #[verifier::external_body] pub fn isqrt(self) -> (r: Uint128) ensures r.v * r.v <= self.v, (r.v + 1) * (r.v + 1) > self.v { unimplemented!() }
    #[verifier::external_body] pub fn from_str(s: &str) -> (r: StdResult<Uint128>) ensures r is Ok ==> parses_to(s@, r->Ok_0.v as int) { unimplemented!() }
}
// a fraction
pub trait VxFrac { spec fn vx_num(&self) -> int; spec fn vx_den(&self) -> int; }
impl VxFrac for Decimal { open spec fn vx_num(&self) -> int { self.v as int } open spec fn vx_den(&self) -> int { e18() } }
impl<A: VxRatio, B: VxRatio> VxFrac for (A, B) { open spec fn vx_num(&self) -> int { self.0.vx_n() } open spec fn vx_den(&self) -> int { self.1.vx_n() } }
pub trait VxRatio { spec fn vx_n(&self) -> int; }
impl VxRatio for Uint128 { open spec fn vx_n(&self) -> int { self.v as int } }
impl VxRatio for u128 { open spec fn vx_n(&self) -> int { *self as int } }
impl VxRatio for u64 { open spec fn vx_n(&self) -> int { *self as int } }
impl VxFrom<Uint128> for u128 { open spec fn vx_from_spec(a: Uint128, r: Self) -> bool { r == a.v } #[verifier::external_body] fn vx_from(a: Uint128) -> (r: Self) { unimplemented!() } }
impl VxFrom<u128> for Uint128 { open spec fn vx_from_spec(a: u128, r: Self) -> bool { r.v == a } #[verifier::external_body] fn vx_from(a: u128) -> (r: Self) { unimplemented!() } }
impl VxFrom<u64> for Uint128 { open spec fn vx_from_spec(a: u64, r: Self) -> bool { r.v == a } #[verifier::external_body] fn vx_from(a: u64) -> (r: Self) { unimplemented!() } }
impl VxFrom<u32> for Uint128 { open spec fn vx_from_spec(a: u32, r: Self) -> bool { r.v == a } #[verifier::external_body] fn vx_from(a: u32) -> (r: Self) { unimplemented!() } }
impl VxFrom<Uint128> for String { open spec fn vx_from_spec(a: Uint128, r: Self) -> bool { r@ == a.vx_disp() } #[verifier::external_body] fn vx_from(a: Uint128) -> (r: Self) { unimplemented!() } }

// ---- Decimal: fixed point with 18 fractional digits
pub struct Decimal { pub v: u128 }
impl Copy for Decimal {}
impl Clone for Decimal { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VxClone for Decimal { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxDefault for Decimal { open spec fn vx_is_default(r: Self) -> bool { r.v == 0 } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
pub uninterp spec fn dec_str(n: int) -> Seq<char>;
impl VxDisplay for Decimal { open spec fn vx_disp(&self) -> Seq<char> { dec_str(self.v as int) } }
// base^exp in fixed point arithmetic (raw values), as cosmwasm computes it: repeated squaring, every product rounded down
pub open spec fn dpow_go(x: int, y: int, n: int) -> int decreases n {
    if n <= 1 { mfloor(x, y, e18()) } else if n % 2 == 0 { dpow_go(mfloor(x, x, e18()), y, n / 2) } else { dpow_go(mfloor(x, x, e18()), mfloor(x, y, e18()), n / 2) }
}
#[verifier::opaque] pub open spec fn dpow(base: int, exp: int) -> int { if exp <= 0 { e18() } else { dpow_go(base, e18(), exp) } }
// value of a decimal literal
// value of a decimal literal "123.456" in units of 10^-18 (up to 18 fractional digits)
pub open spec fn p10(n: int) -> int decreases n { if n <= 0 { 1 } else { 10 * p10(n - 1) } }
pub open spec fn dparse(s: Seq<char>, i: int, acc: int, frac: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() { acc * p10(if frac < 0 { 18 } else { 18 - frac }) } else if s[i] == '.' { dparse(s, i + 1, acc, 0) } else { dparse(s, i + 1, acc * 10 + (s[i] as u8 - 48), if frac < 0 { frac } else { frac + 1 }) } }
pub open spec fn dec_lit(s: Seq<char>) -> int { dparse(s, 0, 0, -1) }
pub open spec fn dsum(s: Seq<Decimal>) -> int decreases s.len() { if s.len() == 0 { 0 } else { dsum(s.drop_last()) + s.last().v } }
pub open spec fn usum(s: Seq<Uint128>) -> int decreases s.len() { if s.len() == 0 { 0 } else { usum(s.drop_last()) + s.last().v } }
impl VxSum<Decimal> for Decimal { open spec fn vx_sums(s: Seq<Decimal>, r: Decimal) -> bool { r.v == dsum(s) } }
impl<'a> VxSum<&'a Decimal> for Decimal { open spec fn vx_sums(s: Seq<&'a Decimal>, r: Decimal) -> bool { r.v == dsum(Seq::new(s.len(), |i: int| *s[i])) } }
impl VxSum<Uint128> for Uint128 { open spec fn vx_sums(s: Seq<Uint128>, r: Uint128) -> bool { r.v == usum(s) } }
impl<'a> VxSum<&'a Uint128> for Uint128 { open spec fn vx_sums(s: Seq<&'a Uint128>, r: Uint128) -> bool { r.v == usum(Seq::new(s.len(), |i: int| *s[i])) } }
impl Decimal {
    pub const MAX: Decimal = Decimal { v: u128::MAX };
    #[verifier::external_body] pub const fn raw(v: u128) -> (r: Self) ensures r.v == v { unimplemented!() }
    #[verifier::external_body] pub const fn new(v: Uint128) -> (r: Self) ensures r.v == v.v { unimplemented!() }
    #[verifier::external_body] pub const fn zero() -> (r: Self) ensures r.v == 0 { unimplemented!() }
    #[verifier::external_body] pub const fn one() -> (r: Self) ensures r.v == e18() { unimplemented!() }
    #[verifier::external_body] pub const fn percent(x: u64) -> (r: Self) ensures r.v == x * 10_000_000_000_000_000 { unimplemented!() }
    #[verifier::external_body] pub const fn permille(x: u64) -> (r: Self) ensures r.v == x * 1_000_000_000_000_000 { unimplemented!() }
    #[verifier::external_body] pub const fn atomics(&self) -> (r: Uint128) ensures r.v == self.v { unimplemented!() }
    #[verifier::external_body] pub const fn is_zero(&self) -> (r: bool) ensures r == (self.v == 0) { unimplemented!() }
    #[verifier::external_body] pub fn vx_max(self, o: Self) -> (r: Self) ensures r.v == if self.v >= o.v { self.v } else { o.v } { unimplemented!() }
    #[verifier::external_body] pub fn vx_min(self, o: Self) -> (r: Self) ensures r.v == if self.v <= o.v { self.v } else { o.v } { unimplemented!() }
    #[verifier::external_body] pub fn vx_abs_diff(self, o: Self) -> (r: Self) ensures r.v == if self.v >= o.v { self.v - o.v } else { o.v - self.v } { unimplemented!() }
    #[verifier::external_body] pub fn vx_checked_add(self, o: Self) -> (r: Result<Self, OverflowError>) ensures r is Ok == (self.v + o.v <= u128::MAX), r is Ok ==> r->Ok_0.v == self.v + o.v { unimplemented!() }
    #[verifier::external_body] pub fn vx_checked_sub(self, o: Self) -> (r: Result<Self, OverflowError>) ensures r is Ok == (self.v >= o.v), r is Ok ==> r->Ok_0.v == self.v - o.v { unimplemented!() }
    #[verifier::external_body] pub fn vx_saturating_sub(self, o: Self) -> (r: Self) ensures r.v == if self.v >= o.v { (self.v - o.v) as int } else { 0 } { unimplemented!() }
    #[verifier::external_body] pub fn vx_saturating_add(self, o: Self) -> (r: Self) ensures r.v == if self.v + o.v <= u128::MAX { (self.v + o.v) as int } else { u128::MAX as int } { unimplemented!() }
    #[verifier::external_body] pub fn vx_checked_mul(self, o: Self) -> (r: Result<Self, OverflowError>) ensures r is Ok == (mfloor(self.v as int, o.v as int, e18()) <= u128::MAX), r is Ok ==> r->Ok_0.v == mfloor(self.v as int, o.v as int, e18()) { unimplemented!() }
    #[verifier::external_body] pub fn vx_checked_div(self, o: Self) -> (r: Result<Self, CheckedFromRatioError>) ensures r is Ok ==> o.v != 0 && r->Ok_0.v == mfloor(self.v as int, e18(), o.v as int) { unimplemented!() }
    #[verifier::external_body] pub fn checked_pow(self, e: u32) -> (r: Result<Self, OverflowError>) ensures r is Ok ==> r->Ok_0.v == dpow(self.v as int, e as int) { unimplemented!() }
    #[verifier::external_body] pub fn vx_pow(self, e: u32) -> (r: Self) ensures r.v == dpow(self.v as int, e as int) { unimplemented!() }
    #[verifier::external_body] pub fn checked_from_ratio<A: VxRatio, B: VxRatio>(n: A, d: B) -> (r: Result<Self, CheckedFromRatioError>) ensures r is Ok ==> d.vx_n() != 0 && r->Ok_0.v == mfloor(n.vx_n(), e18(), d.vx_n()) { unimplemented!() }
    #[verifier::external_body] pub fn from_ratio<A: VxRatio, B: VxRatio>(n: A, d: B) -> (r: Self) ensures d.vx_n() != 0 && r.v == mfloor(n.vx_n(), e18(), d.vx_n()) { unimplemented!() }
    #[verifier::external_body] pub fn from_atomics(n: u128, p: u32) -> (r: Result<Self, DecimalRangeExceeded>) ensures p == 18 ==> r is Ok && r->Ok_0.v == n { unimplemented!() }
    #[verifier::external_body] pub fn floor(&self) -> (r: Self) ensures r.v == (self.v as int / e18()) * e18() { unimplemented!() }
    #[verifier::external_body] pub fn ceil(&self) -> (r: Decimal) ensures r.v == mceil(self.v as int, 1, e18()) * e18() { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(&self) -> (r: Decimal) ensures r.v * r.v <= self.v * e18(), self.v * e18() <= u128::MAX ==> (r.v + 1) * (r.v + 1) > self.v * e18() { unimplemented!() }
    #[verifier::external_body] pub fn inv(&self) -> (r: Option<Decimal>) ensures r is None == (self.v == 0), r is Some ==> r->0.v == e18() * e18() / self.v as int { unimplemented!() }
    #[verifier::external_body] pub fn bps(n: u64) -> (r: Decimal) ensures r.v == n * 100_000_000_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn to_uint_floor(self) -> (r: Uint128) ensures r.v == self.v as int / e18() { unimplemented!() }
    #[verifier::external_body] pub fn to_uint_ceil(self) -> (r: Uint128) ensures r.v == mceil(self.v as int, 1, e18()) { unimplemented!() }
    #[verifier::external_body] pub fn from_str(s: &str) -> (r: StdResult<Decimal>) ensures r is Ok ==> r->Ok_0.v == dec_lit(s@) { unimplemented!() }
}
''')
forms=[('{A}','{B}','a','b',''),("&'a {A}",'{B}','*a','b',"<'a>"),('{A}',"&'a {B}",'a','*b',"<'a>"),("&'a {A}","&'b {B}",'*a','*b',"<'a, 'b>")]
for A,B,R,ops in [('Uint128','Uint128','Uint128',{'add':'r.v == {a}.v + {b}.v','sub':'r.v == {a}.v - {b}.v','mul':'r.v == {a}.v * {b}.v','div':'{b}.v != 0 && r.v == {a}.v as int / {b}.v as int','rem':'{b}.v != 0 && r.v == {a}.v as int % {b}.v as int'}),
    ('Decimal','Decimal','Decimal',{'add':'r.v == {a}.v + {b}.v','sub':'r.v == {a}.v - {b}.v','mul':'r.v == mfloor({a}.v as int, {b}.v as int, e18())','div':'{b}.v != 0 && r.v == mfloor({a}.v as int, e18(), {b}.v as int)'}),
    ('Decimal','Uint128','Uint128',{'mul':'r.v == mfloor({b}.v as int, {a}.v as int, e18())'}),
    ('Uint128','Decimal','Uint128',{'mul':'r.v == mfloor({a}.v as int, {b}.v as int, e18())'})]:
    for op,body in ops.items():
        T='Vx'+op.capitalize()
        for fa,fb,xa,xb,g in forms:
            ta=fa.format(A=A); tb=fb.format(B=B)
            P(f"impl{g} {T}<{tb}> for {ta} {{ type O = {R}; open spec fn vx_{op}_s(a: {ta}, b: {tb}, r: {R}) -> bool {{ {body.format(a='('+xa+')' if '*' in xa else xa,b='('+xb+')' if '*' in xb else xb)} }} }}\n")
P("impl VxDiv<Uint128> for Decimal { type O = Decimal; open spec fn vx_div_s(a: Decimal, b: Uint128, r: Decimal) -> bool { b.v != 0 && r.v == a.v as int / b.v as int } }\n")
for t in ['Uint128','Decimal']:
    P(f'impl VxEq<{t}> for {t} {{ open spec fn vx_eqs(&self, o: &{t}) -> bool {{ *self == *o }} #[verifier::external_body] fn vx_eq(&self, o: &{t}) -> (r: bool) {{ unimplemented!() }} }}\nimpl VxOrd<{t}> for {t} {{ open spec fn vx_lts(&self, o: &{t}) -> bool {{ self.v < o.v }} open spec fn vx_les(&self, o: &{t}) -> bool {{ self.v <= o.v }} }}\n')

# 256 bit numbers: opaque, known by their value
def opaque(T):
    P(f'''#[verifier::external_body] pub struct {T} {{ x: u128, y: u128 }}
impl {T} {{ pub uninterp spec fn v(&self) -> int; }}
impl Copy for {T} {{}}
impl Clone for {T} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}
impl VxClone for {T} {{ #[verifier::external_body] fn vx_clone(&self) -> (r: Self) {{ unimplemented!() }} }}
impl VxDefault for {T} {{ open spec fn vx_is_default(r: Self) -> bool {{ r.v() == 0 }} #[verifier::external_body] fn vx_default() -> (r: Self) {{ unimplemented!() }} }}
impl VxEq<{T}> for {T} {{ open spec fn vx_eqs(&self, o: &{T}) -> bool {{ self.v() == o.v() }} #[verifier::external_body] fn vx_eq(&self, o: &{T}) -> (r: bool) {{ unimplemented!() }} }}
impl VxOrd<{T}> for {T} {{ open spec fn vx_lts(&self, o: &{T}) -> bool {{ self.v() < o.v() }} open spec fn vx_les(&self, o: &{T}) -> bool {{ self.v() <= o.v() }} }}
pub broadcast axiom fn ax_{T.lower()}_range(a: {T}) ensures 0 <= #[trigger] a.v();
pub uninterp spec fn {T.lower()}_of(n: int) -> {T};
pub broadcast axiom fn ax_{T.lower()}_ext(a: {T}) ensures {T.lower()}_of(#[trigger] a.v()) == a;
''')
opaque('Uint256'); opaque('Decimal256')
for e in ['Decimal256RangeExceeded']:
    P(f'#[verifier::external_body] pub struct {e} {{ s: String }}\nimpl VxDisplay for {e} {{ uninterp spec fn vx_disp(&self) -> Seq<char>; }}\n')
P('''
impl VxDisplay for Uint256 { open spec fn vx_disp(&self) -> Seq<char> { int_str(self.v()) } }
impl VxDisplay for Decimal256 { open spec fn vx_disp(&self) -> Seq<char> { dec_str(self.v()) } }
impl VxRatio for Uint256 { open spec fn vx_n(&self) -> int { self.v() } }
pub open spec fn u256_max() -> int { (u128::MAX + 1) * (u128::MAX + 1) - 1 }
impl Uint256 {
    #[verifier::external_body] pub const fn zero() -> (r: Self) ensures r.v() == 0 { unimplemented!() }
    #[verifier::external_body] pub const fn one() -> (r: Self) ensures r.v() == 1 { unimplemented!() }
    #[verifier::external_body] pub const fn from_u128(a: u128) -> (r: Self) ensures r.v() == a { unimplemented!() }
    #[verifier::external_body] pub const fn from_uint128(a: Uint128) -> (r: Self) ensures r.v() == a.v { unimplemented!() }
    #[verifier::external_body] pub const fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn vx_checked_add(self, o: Self) -> (r: Result<Self, OverflowError>) ensures r is Ok ==> r->Ok_0.v() == self.v() + o.v() { unimplemented!() }
    #[verifier::external_body] pub fn vx_checked_sub(self, o: Self) -> (r: Result<Self, OverflowError>) ensures r is Ok == (self.v() >= o.v()), r is Ok ==> r->Ok_0.v() == self.v() - o.v() { unimplemented!() }
    #[verifier::external_body] pub fn vx_checked_mul(self, o: Self) -> (r: Result<Self, OverflowError>) ensures r is Ok ==> r->Ok_0.v() == self.v() * o.v() { unimplemented!() }
    #[verifier::external_body] pub fn vx_checked_div(self, o: Self) -> (r: Result<Self, DivideByZeroError>) ensures r is Ok == (o.v() != 0), r is Ok ==> r->Ok_0.v() == self.v() / o.v() { unimplemented!() }
    #[verifier::external_body] pub fn vx_saturating_sub(self, o: Self) -> (r: Self) ensures r.v() == if self.v() >= o.v() { self.v() - o.v() } else { 0 } { unimplemented!() }
    #[verifier::external_body] pub fn vx_abs_diff(self, o: Self) -> (r: Self) ensures r.v() == if self.v() >= o.v() { self.v() - o.v() } else { o.v() - self.v() } { unimplemented!() }
    #[verifier::external_body] pub fn vx_min(self, o: Self) -> (r: Self) ensures r.v() == if self.v() <= o.v() { self.v() } else { o.v() } { unimplemented!() }
    #[verifier::external_body] pub fn vx_max(self, o: Self) -> (r: Self) ensures r.v() == if self.v() >= o.v() { self.v() } else { o.v() } { unimplemented!() }
    #[verifier::external_body] pub fn multiply_ratio<A: VxRatio, B: VxRatio>(&self, n: A, d: B) -> (r: Self) ensures d.vx_n() != 0, r.v() == mfloor(self.v(), n.vx_n(), d.vx_n()) { unimplemented!() }
}
impl Decimal256 {
    #[verifier::external_body] pub const fn zero() -> (r: Self) ensures r.v() == 0 { unimplemented!() }
    #[verifier::external_body] pub const fn one() -> (r: Self) ensures r.v() == e18() { unimplemented!() }
    #[verifier::external_body] pub const fn raw(v: u128) -> (r: Self) ensures r.v() == v { unimplemented!() }
    #[verifier::external_body] pub const fn new(v: Uint256) -> (r: Self) ensures r.v() == v.v() { unimplemented!() }
    #[verifier::external_body] pub const fn percent(x: u64) -> (r: Self) ensures r.v() == x * 10_000_000_000_000_000 { unimplemented!() }
    #[verifier::external_body] pub const fn atomics(&self) -> (r: Uint256) ensures r.v() == self.v() { unimplemented!() }
    #[verifier::external_body] pub const fn decimal_places(&self) -> (r: u32) ensures r == 18 { unimplemented!() }
    #[verifier::external_body] pub const fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn from_atomics<A: VxBig>(n: A, p: u32) -> (r: Result<Self, Decimal256RangeExceeded>) ensures r is Ok && p <= 18 ==> r->Ok_0.v() == n.vx_b() * p10(18 - p), r is Ok && p > 18 ==> r->Ok_0.v() == n.vx_b() / p10(p - 18), p == 18 ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn from_ratio<A: VxBig, B: VxBig>(n: A, d: B) -> (r: Self) ensures d.vx_b() != 0, r.v() == mfloor(n.vx_b(), e18(), d.vx_b()) { unimplemented!() }
    #[verifier::external_body] pub fn checked_from_ratio<A: VxBig, B: VxBig>(n: A, d: B) -> (r: Result<Self, CheckedFromRatioError>) ensures r is Ok ==> d.vx_b() != 0 && r->Ok_0.v() == mfloor(n.vx_b(), e18(), d.vx_b()) { unimplemented!() }
    #[verifier::external_body] pub fn floor(&self) -> (r: Self) ensures r.v() == (self.v() / e18()) * e18() { unimplemented!() }
    #[verifier::external_body] pub fn to_uint_floor(self) -> (r: Uint256) ensures r.v() == self.v() / e18() { unimplemented!() }
    #[verifier::external_body] pub fn to_uint_ceil(self) -> (r: Uint256) ensures r.v() == mceil(self.v(), 1, e18()) { unimplemented!() }
    #[verifier::external_body] pub fn vx_checked_add(self, o: Self) -> (r: Result<Self, OverflowError>) ensures r is Ok ==> r->Ok_0.v() == self.v() + o.v() { unimplemented!() }
    #[verifier::external_body] pub fn vx_checked_sub(self, o: Self) -> (r: Result<Self, OverflowError>) ensures r is Ok == (self.v() >= o.v()), r is Ok ==> r->Ok_0.v() == self.v() - o.v() { unimplemented!() }
    #[verifier::external_body] pub fn vx_checked_mul(self, o: Self) -> (r: Result<Self, OverflowError>) ensures r is Ok ==> r->Ok_0.v() == mfloor(self.v(), o.v(), e18()) { unimplemented!() }
    #[verifier::external_body] pub fn vx_checked_div(self, o: Self) -> (r: Result<Self, CheckedFromRatioError>) ensures r is Ok ==> o.v() != 0 && r->Ok_0.v() == mfloor(self.v(), e18(), o.v()) { unimplemented!() }
    #[verifier::external_body] pub fn vx_saturating_sub(self, o: Self) -> (r: Self) ensures r.v() == if self.v() >= o.v() { self.v() - o.v() } else { 0 } { unimplemented!() }
    #[verifier::external_body] pub fn vx_abs_diff(self, o: Self) -> (r: Self) ensures r.v() == if self.v() >= o.v() { self.v() - o.v() } else { o.v() - self.v() } { unimplemented!() }
    #[verifier::external_body] pub fn vx_min(self, o: Self) -> (r: Self) ensures r.v() == if self.v() <= o.v() { self.v() } else { o.v() } { unimplemented!() }
    #[verifier::external_body] pub fn vx_max(self, o: Self) -> (r: Self) ensures r.v() == if self.v() >= o.v() { self.v() } else { o.v() } { unimplemented!() }
}
// anything that converts to Uint256
pub trait VxBig { spec fn vx_b(&self) -> int; }
impl VxBig for Uint256 { open spec fn vx_b(&self) -> int { self.v() } }
impl VxBig for Uint128 { open spec fn vx_b(&self) -> int { self.v as int } }
''')
for t in ['u128','u64','u32','u16','u8']:
    P(f'impl VxBig for {t} {{ open spec fn vx_b(&self) -> int {{ *self as int }} }}\nimpl VxFrom<{t}> for Uint256 {{ open spec fn vx_from_spec(a: {t}, r: Self) -> bool {{ r.v() == a }} #[verifier::external_body] fn vx_from(a: {t}) -> (r: Self) {{ unimplemented!() }} }}\n')
P('''impl VxFrom<Uint128> for Uint256 { open spec fn vx_from_spec(a: Uint128, r: Self) -> bool { r.v() == a.v } #[verifier::external_body] fn vx_from(a: Uint128) -> (r: Self) { unimplemented!() } }
impl VxFrom<Decimal> for Decimal256 { open spec fn vx_from_spec(a: Decimal, r: Self) -> bool { r.v() == a.v } #[verifier::external_body] fn vx_from(a: Decimal) -> (r: Self) { unimplemented!() } }
impl VxFrom<Uint256> for String { open spec fn vx_from_spec(a: Uint256, r: Self) -> bool { r@ == int_str(a.v()) } #[verifier::external_body] fn vx_from(a: Uint256) -> (r: Self) { unimplemented!() } }
impl VxFromStr for Decimal { type Err = StdError; open spec fn vx_fs(s: Seq<char>, r: Result<Decimal, StdError>) -> bool { r is Ok ==> r->Ok_0.v == dec_lit(s) } }
impl VxTryInto<Uint128> for Uint256 { type E = ConversionOverflowError; open spec fn vx_try_spec(a: Self, r: Result<Uint128, ConversionOverflowError>) -> bool { r is Ok == (a.v() <= u128::MAX) && (r is Ok ==> r->Ok_0.v == a.v()) } #[verifier::external_body] fn vx_try_into(self) -> (r: Result<Uint128, ConversionOverflowError>) { unimplemented!() } }
''')
for A,B,R,ops in [('Uint256','Uint256','Uint256',{'add':'r.v() == {a}.v() + {b}.v()','sub':'r.v() == {a}.v() - {b}.v()','mul':'r.v() == {a}.v() * {b}.v()','div':'{b}.v() != 0 && r.v() == {a}.v() / {b}.v()','rem':'{b}.v() != 0 && r.v() == {a}.v() % {b}.v()'}),
    ('Decimal256','Decimal256','Decimal256',{'add':'r.v() == {a}.v() + {b}.v()','sub':'r.v() == {a}.v() - {b}.v()','mul':'r.v() == mfloor({a}.v(), {b}.v(), e18())','div':'{b}.v() != 0 && r.v() == mfloor({a}.v(), e18(), {b}.v())'}),
    ('Decimal256','Uint256','Uint256',{'mul':'r.v() == mfloor({b}.v(), {a}.v(), e18())'}),
    ('Decimal256','Uint256','Decimal256',{'div':'{b}.v() != 0 && r.v() == {a}.v() / {b}.v()'}),
    ('Uint256','Decimal256','Uint256',{'mul':'r.v() == mfloor({a}.v(), {b}.v(), e18())'})]:
    for op,body in ops.items():
        T='Vx'+op.capitalize()
        for fa,fb,xa,xb,gg in (forms if A==B else forms[:1]):
            ta=fa.format(A=A); tb=fb.format(B=B)
            P(f"impl{gg} {T}<{tb}> for {ta} {{ type O = {R}; open spec fn vx_{op}_s(a: {ta}, b: {tb}, r: {R}) -> bool {{ {body.format(a='('+xa+')' if '*' in xa else xa,b='('+xb+')' if '*' in xb else xb)} }} }}\n")
P('''
// ---- addresses, coins
pub struct Addr { pub s: String }
impl VxClone for Addr { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxEq<Addr> for Addr { open spec fn vx_eqs(&self, o: &Addr) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &Addr) -> (r: bool) { unimplemented!() } }
impl VxEq<String> for Addr { open spec fn vx_eqs(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &String) -> (r: bool) { unimplemented!() } }
impl VxEq<str> for Addr { open spec fn vx_eqs(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl VxEq<Addr> for String { open spec fn vx_eqs(&self, o: &Addr) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &Addr) -> (r: bool) { unimplemented!() } }
impl VxDisplay for Addr { open spec fn vx_disp(&self) -> Seq<char> { self@ } }
impl Addr {
    pub open spec fn view(&self) -> Seq<char> { self.s@ }
    #[verifier::external_body] pub fn unchecked<S: VxInto<String>>(s: S) -> (r: Addr) ensures s.vx_into_spec(r.s) { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn into_string(self) -> (r: String) ensures r@ == self@, r == self.s { unimplemented!() }
}
impl VxFrom<Addr> for String { open spec fn vx_from_spec(a: Addr, r: Self) -> bool { r@ == a@ } #[verifier::external_body] fn vx_from(a: Addr) -> (r: Self) { unimplemented!() } }
impl<'a> VxFrom<&'a Addr> for String { open spec fn vx_from_spec(a: &'a Addr, r: Self) -> bool { r@ == a@ } #[verifier::external_body] fn vx_from(a: &'a Addr) -> (r: Self) { unimplemented!() } }
pub struct Coin { pub denom: String, pub amount: Uint128 }
pub ghost struct CoinV { pub denom: Seq<char>, pub amount: int }
impl Coin { pub open spec fn view(&self) -> CoinV { CoinV { denom: self.denom@, amount: self.amount.v as int } }
    #[verifier::external_body] pub fn new<S: VxInto<String>>(amount: u128, denom: S) -> (r: Coin) ensures denom.vx_into_spec(r.denom), r.amount.v == amount { unimplemented!() } }
impl VxClone for Coin { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxEq<Coin> for Coin { open spec fn vx_eqs(&self, o: &Coin) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &Coin) -> (r: bool) { unimplemented!() } }
impl VxDisplay for Coin { open spec fn vx_disp(&self) -> Seq<char> { int_str(self.amount.v as int) + self.denom@ } }
pub open spec fn coinsv(s: Seq<Coin>) -> Seq<CoinV> { s.map_values(|c: Coin| c@) }
#[verifier::external_body] pub fn coin<S: VxInto<String>>(amount: u128, denom: S) -> (r: Coin) ensures denom.vx_into_spec(r.denom), r.amount.v == amount { unimplemented!() }
#[verifier::external_body] pub fn coins<S: VxInto<String>>(amount: u128, denom: S) -> (r: Vec<Coin>) ensures r@.len() == 1, denom.vx_into_spec(r@[0].denom), r@[0].amount.v == amount { unimplemented!() }

// ---- environment
pub struct Timestamp { pub ns: u64 }
impl Copy for Timestamp {}
impl Clone for Timestamp { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VxClone for Timestamp { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl Timestamp {
    pub open spec fn sec(&self) -> u64 { (self.ns / 1_000_000_000) as u64 }
    #[verifier::external_body] pub fn seconds(&self) -> (r: u64) ensures r == self.sec() { unimplemented!() }
    #[verifier::external_body] pub fn nanos(&self) -> (r: u64) ensures r == self.ns { unimplemented!() }
    #[verifier::external_body] pub fn from_seconds(s: u64) -> (r: Timestamp) ensures r.ns == s * 1_000_000_000, r.sec() == s { unimplemented!() }
    #[verifier::external_body] pub fn plus_seconds(&self, s: u64) -> (r: Timestamp) ensures r.ns == self.ns + s * 1_000_000_000, r.sec() == self.sec() + s { unimplemented!() }
    #[verifier::external_body] pub fn minus_seconds(&self, s: u64) -> (r: Timestamp) ensures r.ns == self.ns - s * 1_000_000_000, r.sec() == self.sec() - s { unimplemented!() }
}
pub struct BlockInfo { pub height: u64, pub time: Timestamp, pub chain_id: String }
pub struct ContractInfo { pub address: Addr }
pub struct Env { pub block: BlockInfo, pub contract: ContractInfo }
impl VxClone for Env { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
pub struct MessageInfo { pub sender: Addr, pub funds: Vec<Coin> }
impl VxClone for MessageInfo { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
pub enum Order { Ascending, Descending }

// ---- storage: keys to encoded values
pub ghost struct Val { pub x: int }
pub uninterp spec fn enc<T>(t: T) -> Val;
pub uninterp spec fn dec<T>(v: Val) -> T;
pub broadcast axiom fn ax_dec<T>(t: T) ensures #[trigger] dec::<T>(enc::<T>(t)) == t;
pub ghost enum VKey { Item(Seq<char>), M1(Seq<char>, Seq<char>), MU(Seq<char>, nat), M2(Seq<char>, Seq<char>, Seq<char>), MUS(Seq<char>, nat, Seq<char>) }
#[verifier::external_body] pub struct Storage { x: u8 }
impl Storage { pub uninterp spec fn view(&self) -> Map<VKey, Val>; }
#[verifier::external_body] pub struct Api { x: u8 }
pub uninterp spec fn addr_ok(s: Seq<char>) -> bool;
impl Api {
    #[verifier::external_body] pub fn addr_validate(&self, s: &str) -> (r: StdResult<Addr>) ensures r is Ok ==> r->Ok_0@ == s@ && addr_ok(s@), addr_ok(s@) ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn secp256k1_verify<A: VxAsRef<[u8]> + ?Sized, B: VxAsRef<[u8]> + ?Sized, C: VxAsRef<[u8]> + ?Sized>(&self, h: &A, s: &B, k: &C) -> (r: Result<bool, VerificationError>) ensures r is Ok ==> r->Ok_0 == secp_ok(h.vx_ar(), s.vx_ar(), k.vx_ar()) { unimplemented!() }
}
// the signature verification primitive of the chain
pub uninterp spec fn secp_ok(h: Seq<u8>, s: Seq<u8>, k: Seq<u8>) -> bool;
pub struct DepsMut<'a> { pub storage: &'a mut Storage, pub api: &'a Api, pub querier: QuerierWrapper }
pub struct Deps<'a> { pub storage: &'a Storage, pub api: &'a Api, pub querier: QuerierWrapper }
impl<'a> Copy for Deps<'a> {}
impl<'a> Clone for Deps<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> DepsMut<'a> {
    pub open spec fn vx_st(&self) -> Map<VKey, Val> { self.storage@ }
    #[verifier::external_body] pub fn as_ref<'b>(&'b self) -> (r: Deps<'b>) ensures r.storage@ == self.vx_st(), *r.api == *self.api, r.querier == self.querier { unimplemented!() }
    #[verifier::external_body] pub fn vx_as_ref<'b>(&'b self) -> (r: Deps<'b>) ensures r.storage@ == self.vx_st(), *r.api == *self.api, r.querier == self.querier { unimplemented!() }
}
pub trait CustomQuery {}
impl CustomQuery for Empty {}
#[verifier::external_body] #[verifier::accept_recursive_types(C)] pub struct QuerierWrapper<C = Empty> { x: core::marker::PhantomData<C> }
impl<C> Copy for QuerierWrapper<C> {}
impl<C> Clone for QuerierWrapper<C> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub enum WasmQuery { Smart { contract_addr: String, msg: Binary } }
pub enum QueryRequest<C> { EstOut(crate::cw_msgs::EstimateSwapExactAmountOutRequest), Pool(crate::cw_msgs::PoolRequest), Wasm(WasmQuery), Other(core::marker::PhantomData<C>) }
impl<C> VxFrom<crate::cw_msgs::PoolRequest> for QueryRequest<C> { open spec fn vx_from_spec(a: crate::cw_msgs::PoolRequest, r: Self) -> bool { r == QueryRequest::<C>::Pool(a) } #[verifier::external_body] fn vx_from(a: crate::cw_msgs::PoolRequest) -> (r: Self) { unimplemented!() } }
impl<C> VxFrom<WasmQuery> for QueryRequest<C> { open spec fn vx_from_spec(a: WasmQuery, r: Self) -> bool { r == QueryRequest::<C>::Wasm(a) } #[verifier::external_body] fn vx_from(a: WasmQuery) -> (r: Self) { unimplemented!() } }
impl<C> VxFrom<crate::cw_msgs::EstimateSwapExactAmountOutRequest> for QueryRequest<C> { open spec fn vx_from_spec(a: crate::cw_msgs::EstimateSwapExactAmountOutRequest, r: Self) -> bool { r == QueryRequest::<C>::EstOut(a) } #[verifier::external_body] fn vx_from(a: crate::cw_msgs::EstimateSwapExactAmountOutRequest) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct SystemError { s: String }
impl VxDisplay for SystemError { uninterp spec fn vx_disp(&self) -> Seq<char>; }
pub open spec fn smart<C>(x: String, b: Binary) -> QueryRequest<C> { QueryRequest::<C>::Wasm(WasmQuery::Smart { contract_addr: x, msg: b }) }
pub enum ContractResult<T> { Ok(T), Err(String) }
pub enum SystemResult<T> { Ok(T), Err(SystemError) }
// answer of the chain to a serialized query
pub uninterp spec fn qraw<C>(q: QuerierWrapper<C>, req: Seq<u8>) -> Seq<u8>;
impl<C> QuerierWrapper<C> {
    #[verifier::external_body] pub fn raw_query(&self, b: &Vec<u8>) -> (r: SystemResult<ContractResult<Binary>>) ensures r is Ok && r->Ok_0 is Ok ==> r->Ok_0->Ok_0@ == qraw(*self, b@) { unimplemented!() }
    #[verifier::external_body] pub fn query<T>(&self, req: &QueryRequest<C>) -> (r: StdResult<T>) ensures r is Ok ==> r->Ok_0 == unjson::<T>(qraw(*self, json::<QueryRequest<C>>(*req))) { unimplemented!() }
    #[verifier::external_body] pub fn query_wasm_smart<T, A: VxInto<String>, M>(&self, a: A, m: &M) -> (r: StdResult<T>)
        ensures r is Ok ==> exists|x: String, b: Binary| #![trigger smart::<C>(x, b)] a.vx_into_spec(x) && b@ == json::<M>(*m) && r->Ok_0 == unjson::<T>(qraw(*self, json::<QueryRequest<C>>(smart::<C>(x, b)))) { unimplemented!() }
    pub uninterp spec fn bal(&self, a: Seq<char>, d: Seq<char>) -> int;
    #[verifier::external_body] pub fn query_balance<A: VxInto<String>, D: VxInto<String>>(&self, a: A, d: D) -> (r: StdResult<Coin>)
        ensures r is Ok ==> exists|x: String, y: String| #![trigger a.vx_into_spec(x), d.vx_into_spec(y)] a.vx_into_spec(x) && d.vx_into_spec(y) && r->Ok_0.denom@ == y@ && r->Ok_0.amount.v == self.bal(x@, y@) { unimplemented!() }
}

// ---- binary / json
pub struct Binary { pub b: Vec<u8> }
// a binary is its bytes
pub uninterp spec fn bin_of(s: Seq<u8>) -> Binary;
pub broadcast axiom fn ax_bin_ext(a: Binary) ensures bin_of(#[trigger] a@) == a;
pub type QueryResponse = Binary;
impl VxClone for Binary { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxEq<Binary> for Binary { open spec fn vx_eqs(&self, o: &Binary) -> bool { self.b@ == o.b@ } #[verifier::external_body] fn vx_eq(&self, o: &Binary) -> (r: bool) { unimplemented!() } }
impl VxAsRef<[u8]> for Binary { open spec fn vx_ar(&self) -> Seq<u8> { self@ } }
impl Binary { pub open spec fn view(&self) -> Seq<u8> { self.b@ }
    #[verifier::external_body] pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn to_base64(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() } }
impl<'a> VxFrom<&'a [u8]> for Binary { open spec fn vx_from_spec(a: &'a [u8], r: Self) -> bool { r@ == a@ } #[verifier::external_body] fn vx_from(a: &'a [u8]) -> (r: Self) { unimplemented!() } }
impl VxFrom<Vec<u8>> for Binary { open spec fn vx_from_spec(a: Vec<u8>, r: Self) -> bool { r@ == a@ } #[verifier::external_body] fn vx_from(a: Vec<u8>) -> (r: Self) { unimplemented!() } }
pub uninterp spec fn json<T>(t: T) -> Seq<u8>;
pub uninterp spec fn unjson<T>(s: Seq<u8>) -> T;
pub broadcast axiom fn ax_json<T>(t: T) ensures #[trigger] unjson::<T>(json::<T>(t)) == t;
#[verifier::external_body] pub fn to_json_vec<T>(t: &T) -> (r: StdResult<Vec<u8>>) ensures r is Ok ==> r->Ok_0@ == json::<T>(*t) { unimplemented!() }
#[verifier::external_body] pub fn to_json_binary<T>(t: &T) -> (r: StdResult<Binary>) ensures r is Ok ==> r->Ok_0@ == json::<T>(*t) { unimplemented!() }
#[verifier::external_body] pub fn from_json<T>(b: &Binary) -> (r: StdResult<T>) ensures r is Ok ==> r->Ok_0 == unjson::<T>(b@) { unimplemented!() }

// ---- messages and responses
pub struct Attribute { pub key: String, pub value: String }
#[verifier::external_body] pub fn attr<K, V>(k: K, v: V) -> Attribute { unimplemented!() }
pub enum BankMsg { Send { to_address: String, amount: Vec<Coin> }, Burn { amount: Vec<Coin> } }
pub enum WasmMsg { Execute { contract_addr: String, msg: Binary, funds: Vec<Coin> } }
pub enum CosmosMsg<T = Empty> { Bank(BankMsg), Wasm(WasmMsg), TfMint(MsgMint), TfBurn(MsgBurn), TfCreate(MsgCreateDenom), SwapIn(MsgSwapExactAmountIn), SwapOut(MsgSwapExactAmountOut), Custom(T) }
impl<T> VxClone for CosmosMsg<T> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
// what a message asks the chain to do
pub ghost enum MsgV {
    Send { to: Seq<char>, amount: Seq<CoinV> }, BankBurn { amount: Seq<CoinV> },
    Exec { contract: Seq<char>, msg: Seq<u8>, funds: Seq<CoinV> },
    Mint { sender: Seq<char>, to: Seq<char>, coin: Option<(Seq<char>, Seq<char>)> },
    Burn { sender: Seq<char>, from: Seq<char>, coin: Option<(Seq<char>, Seq<char>)> },
    Create { sender: Seq<char>, sub: Seq<char> },
    SwapIn { sender: Seq<char>, routes: Seq<(u64, Seq<char>)>, tin: Option<(Seq<char>, Seq<char>)>, min: Seq<char> },
    SwapOut { sender: Seq<char>, routes: Seq<(u64, Seq<char>)>, max: Seq<char>, tout: Option<(Seq<char>, Seq<char>)> },
    Other,
}
pub open spec fn ocoin(c: Option<OCoin>) -> Option<(Seq<char>, Seq<char>)> { match c { Some(x) => Some((x.denom@, x.amount@)), None => None } }
// the pair osmosis uses for `n` tokens of denomination `d`
pub open spec fn oc(d: Seq<char>, n: int) -> Option<(Seq<char>, Seq<char>)> { Some((d, int_str(n))) }
impl<T> CosmosMsg<T> { pub open spec fn view(&self) -> MsgV { match self {
    CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => MsgV::Send { to: to_address@, amount: coinsv(amount@) },
    CosmosMsg::Bank(BankMsg::Burn { amount }) => MsgV::BankBurn { amount: coinsv(amount@) },
    CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => MsgV::Exec { contract: contract_addr@, msg: msg@, funds: coinsv(funds@) },
    CosmosMsg::TfMint(m) => MsgV::Mint { sender: m.sender@, to: m.mint_to_address@, coin: ocoin(m.amount) },
    CosmosMsg::TfBurn(m) => MsgV::Burn { sender: m.sender@, from: m.burn_from_address@, coin: ocoin(m.amount) },
    CosmosMsg::TfCreate(m) => MsgV::Create { sender: m.sender@, sub: m.subdenom@ },
    CosmosMsg::SwapIn(m) => MsgV::SwapIn { sender: m.sender@, routes: rin(m.routes@), tin: ocoin(m.token_in), min: m.token_out_min_amount@ },
    CosmosMsg::SwapOut(m) => MsgV::SwapOut { sender: m.sender@, routes: rout(m.routes@), max: m.token_in_max_amount@, tout: ocoin(m.token_out) },
    CosmosMsg::Custom(_) => MsgV::Other } } }
pub open spec fn rin(s: Seq<SwapAmountInRoute>) -> Seq<(u64, Seq<char>)> { s.map_values(|x: SwapAmountInRoute| (x.pool_id, x.token_out_denom@)) }
pub open spec fn rout(s: Seq<SwapAmountOutRoute>) -> Seq<(u64, Seq<char>)> { s.map_values(|x: SwapAmountOutRoute| (x.pool_id, x.token_in_denom@)) }
''')
for a,v in [('BankMsg','Bank'),('WasmMsg','Wasm'),('MsgMint','TfMint'),('MsgBurn','TfBurn'),('MsgCreateDenom','TfCreate'),('MsgSwapExactAmountIn','SwapIn'),('MsgSwapExactAmountOut','SwapOut')]:
    P(f'impl<T> VxFrom<{a}> for CosmosMsg<T> {{ open spec fn vx_from_spec(a: {a}, r: Self) -> bool {{ r == CosmosMsg::<T>::{v}(a) }} #[verifier::external_body] fn vx_from(a: {a}) -> (r: Self) {{ unimplemented!() }} }}\n')
P('''
pub struct SubMsg { pub id: u64, pub msg: CosmosMsg, pub on_success: bool, pub on_error: bool }
impl SubMsg {
    #[verifier::external_body] pub fn new<M: VxInto<CosmosMsg>>(m: M) -> (r: SubMsg) ensures m.vx_into_spec(r.msg), !r.on_success, !r.on_error { unimplemented!() }
    #[verifier::external_body] pub fn reply_on_success<M: VxInto<CosmosMsg>>(m: M, id: u64) -> (r: SubMsg) ensures m.vx_into_spec(r.msg), r.id == id, r.on_success, !r.on_error { unimplemented!() }
    #[verifier::external_body] pub fn reply_always<M: VxInto<CosmosMsg>>(m: M, id: u64) -> (r: SubMsg) ensures m.vx_into_spec(r.msg), r.id == id, r.on_success, r.on_error { unimplemented!() }
}
pub struct SubMsgResponse { pub data: Option<Binary> }
pub enum SubMsgResult { Ok(SubMsgResponse), Err(String) }
impl SubMsgResult { #[verifier::external_body] pub fn vx_unwrap(self) -> (r: SubMsgResponse) ensures self == SubMsgResult::Ok(r) { unimplemented!() } }
pub struct Reply { pub id: u64, pub result: SubMsgResult }
#[verifier::external_body] pub struct Response { x: u8 }
impl VxDefault for Response { open spec fn vx_is_default(r: Self) -> bool { r.msgs() == Seq::<CosmosMsg>::empty() && r.replies() == Seq::<bool>::empty() } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
pub open spec fn seqv(s: Seq<CosmosMsg>) -> Seq<MsgV> { s.map_values(|m: CosmosMsg| m@) }
impl Response {
    // messages in order, and for each whether the contract asked for a reply
    pub uninterp spec fn msgs(&self) -> Seq<CosmosMsg>;
    pub uninterp spec fn replies(&self) -> Seq<bool>;
    pub open spec fn mv(&self) -> Seq<MsgV> { seqv(self.msgs()) }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.msgs() == Seq::<CosmosMsg>::empty(), r.replies() == Seq::<bool>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn add_attributes(self, a: Vec<Attribute>) -> (r: Self) ensures r.msgs() == self.msgs(), r.replies() == self.replies() { unimplemented!() }
    #[verifier::external_body] pub fn add_attribute<K, V>(self, k: K, v: V) -> (r: Self) ensures r.msgs() == self.msgs(), r.replies() == self.replies() { unimplemented!() }
    #[verifier::external_body] pub fn add_message<M: VxInto<CosmosMsg>>(self, m: M) -> (r: Self) ensures r.msgs().len() == self.msgs().len() + 1, r.msgs().drop_last() == self.msgs(), m.vx_into_spec(r.msgs().last()), r.replies() == self.replies().push(false) { unimplemented!() }
    #[verifier::external_body] pub fn add_messages<S: VxSrc>(self, m: S) -> (r: Self) where S::VxItem: VxInto<CosmosMsg>
        ensures r.msgs().len() == self.msgs().len() + m.vx_seq().len(), forall|i: int| #![trigger r.msgs()[i]] 0 <= i < self.msgs().len() ==> r.msgs()[i] == self.msgs()[i],
            forall|i: int| #![trigger m.vx_seq()[i]] 0 <= i < m.vx_seq().len() ==> m.vx_seq()[i].vx_into_spec(r.msgs()[self.msgs().len() + i]),
            r.replies() == self.replies() + Seq::new(m.vx_seq().len(), |i: int| false) { unimplemented!() }
    #[verifier::external_body] pub fn add_submessage(self, m: SubMsg) -> (r: Self) ensures r.msgs() == self.msgs().push(m.msg), r.replies() == self.replies().push(m.on_success || m.on_error) { unimplemented!() }
    #[verifier::external_body] pub fn set_data<D>(self, d: D) -> (r: Self) ensures r.msgs() == self.msgs(), r.replies() == self.replies() { unimplemented!() }
}
}
pub mod cw_msgs {
use vstd::prelude::*;
use crate::vx::*;
use crate::cosmwasm_std::Coin;
pub struct OCoin { pub denom: String, pub amount: String }
impl VxFrom<Coin> for OCoin { open spec fn vx_from_spec(a: Coin, r: Self) -> bool { r.denom@ == a.denom@ && r.amount@ == int_str(a.amount.v as int) } #[verifier::external_body] fn vx_from(a: Coin) -> (r: Self) { unimplemented!() } }
pub struct MsgMint { pub sender: String, pub amount: Option<OCoin>, pub mint_to_address: String }
pub struct MsgBurn { pub sender: String, pub amount: Option<OCoin>, pub burn_from_address: String }
pub struct MsgCreateDenom { pub sender: String, pub subdenom: String }
pub struct MsgCreateDenomResponse { pub new_token_denom: String }
pub uninterp spec fn pb_new_denom(b: Seq<u8>) -> Seq<char>;
impl VxTryInto<MsgCreateDenomResponse> for crate::cosmwasm_std::Binary { type E = crate::cosmwasm_std::StdError; open spec fn vx_try_spec(a: Self, r: Result<MsgCreateDenomResponse, crate::cosmwasm_std::StdError>) -> bool { r is Ok ==> r->Ok_0.new_token_denom@ == pb_new_denom(a@) } #[verifier::external_body] fn vx_try_into(self) -> (r: Result<MsgCreateDenomResponse, crate::cosmwasm_std::StdError>) { unimplemented!() } }
pub struct SwapAmountInRoute { pub pool_id: u64, pub token_out_denom: String }
pub struct SwapAmountOutRoute { pub pool_id: u64, pub token_in_denom: String }
pub struct PoolRequest { pub pool_id: u64 }
pub struct EstimateSwapExactAmountOutRequest { pub pool_id: u64, pub routes: Vec<SwapAmountOutRoute>, pub token_out: String }
pub struct EstimateSwapExactAmountOutResponse { pub token_in_amount: String }
pub struct EstimateSwapExactAmountInResponse { pub token_out_amount: String }
pub struct PoolmanagerQuerier<'a> { pub q: &'a crate::cosmwasm_std::QuerierWrapper }
// the swap module's estimates
pub uninterp spec fn est_in(q: crate::cosmwasm_std::QuerierWrapper, pool: u64, token_in: Seq<char>, routes: Seq<(u64, Seq<char>)>) -> Seq<char>;
pub uninterp spec fn est_out(q: crate::cosmwasm_std::QuerierWrapper, pool: u64, token_out: Seq<char>, routes: Seq<(u64, Seq<char>)>) -> Seq<char>;
pub broadcast axiom fn ax_est_out(q: crate::cosmwasm_std::QuerierWrapper, req: EstimateSwapExactAmountOutRequest)
    ensures crate::cosmwasm_std::unjson::<EstimateSwapExactAmountOutResponse>(#[trigger] crate::cosmwasm_std::qraw(q, crate::cosmwasm_std::json::<crate::cosmwasm_std::QueryRequest<crate::cosmwasm_std::Empty>>(crate::cosmwasm_std::QueryRequest::EstOut(req)))).token_in_amount@ == est_out(q, req.pool_id, req.token_out@, crate::cosmwasm_std::rout(req.routes@));
impl<'a> PoolmanagerQuerier<'a> {
    #[verifier::external_body] pub fn new(q: &'a crate::cosmwasm_std::QuerierWrapper) -> (r: Self) ensures *r.q == *q { unimplemented!() }
    #[verifier::external_body] pub fn estimate_swap_exact_amount_in(&self, pool_id: u64, token_in: String, routes: Vec<SwapAmountInRoute>) -> (r: crate::cosmwasm_std::StdResult<EstimateSwapExactAmountInResponse>)
        ensures r is Ok ==> r->Ok_0.token_out_amount@ == est_in(*self.q, pool_id, token_in@, crate::cosmwasm_std::rin(routes@)) { unimplemented!() }
}
pub struct MsgSwapExactAmountIn { pub sender: String, pub routes: Vec<SwapAmountInRoute>, pub token_in: Option<OCoin>, pub token_out_min_amount: String }
pub struct MsgSwapExactAmountOut { pub sender: String, pub routes: Vec<SwapAmountOutRoute>, pub token_in_max_amount: String, pub token_out: Option<OCoin> }
}
pub mod cosmwasm_schema { use vstd::prelude::*; pub use crate::vx_macro_stub::*; pub mod serde { pub trait Serialize {} impl<T> Serialize for T {} pub trait Deserialize {} pub mod de { pub trait DeserializeOwned {} impl<T> DeserializeOwned for T {} } } }
pub mod vx_macro_stub { use vstd::prelude::*; #[verifier::external_body] pub fn cw_serde() {} pub trait QueryResponses {} }
pub mod thiserror { pub trait Error {} }
pub mod serde { pub trait Serialize {} impl<T> Serialize for T {} pub mod de { pub trait DeserializeOwned {} impl<T> DeserializeOwned for T {} } }

pub mod cw_storage_plus {
use vstd::prelude::*;
use crate::vx::*;
use crate::cosmwasm_std::*;
pub struct Item<T> { pub k: &'static str, pub p: core::marker::PhantomData<T> }
impl<T> Item<T> {
    pub open spec fn ns(&self) -> Seq<char> { self.k@ }
    pub open spec fn key(&self) -> VKey { VKey::Item(self.k@) }
    pub const fn new(k: &'static str) -> (r: Self) ensures r.k@ == k@ { Item { k, p: core::marker::PhantomData } }
    #[verifier::external_body] pub fn load(&self, s: &Storage) -> (r: StdResult<T>)
        ensures r is Ok ==> s@.dom().contains(self.key()) && r->Ok_0 == dec::<T>(s@[self.key()]), !s@.dom().contains(self.key()) ==> r is Err { unimplemented!() }
    #[verifier::external_body] pub fn may_load(&self, s: &Storage) -> (r: StdResult<Option<T>>)
        ensures r is Ok ==> (r->Ok_0 is Some) == s@.dom().contains(self.key()), r is Ok && r->Ok_0 is Some ==> r->Ok_0->0 == dec::<T>(s@[self.key()]), !s@.dom().contains(self.key()) ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn exists(&self, s: &Storage) -> (r: bool) ensures r == s@.dom().contains(self.key()) { unimplemented!() }
    #[verifier::external_body] pub fn save(&self, s: &mut Storage, t: &T) -> (r: StdResult<()>)
        ensures r is Ok ==> final(s)@ == old(s)@.insert(self.key(), enc::<T>(*t)) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&self, s: &mut Storage) ensures final(s)@ == old(s)@.remove(self.key()) { unimplemented!() }
    #[verifier::external_body] pub fn update<E: From<StdError>, A: FnOnce(T) -> Result<T, E>>(&self, s: &mut Storage, a: A) -> (r: Result<T, E>)
        requires old(s)@.dom().contains(self.key()) ==> call_requires(a, (dec::<T>(old(s)@[self.key()]),)),
        ensures r is Ok ==> old(s)@.dom().contains(self.key()) && call_ensures(a, (dec::<T>(old(s)@[self.key()]),), Ok::<T, E>(r->Ok_0)) && final(s)@ == old(s)@.insert(self.key(), enc::<T>(r->Ok_0)) { unimplemented!() }
}
pub trait VxKeyOf { spec fn vx_key(&self, ns: Seq<char>) -> VKey; }
impl<'a> VxKeyOf for &'a str { open spec fn vx_key(&self, ns: Seq<char>) -> VKey { VKey::M1(ns, self@) } }
impl VxKeyOf for String { open spec fn vx_key(&self, ns: Seq<char>) -> VKey { VKey::M1(ns, self@) } }
impl<'a> VxKeyOf for &'a Addr { open spec fn vx_key(&self, ns: Seq<char>) -> VKey { VKey::M1(ns, self@) } }
impl VxKeyOf for u64 { open spec fn vx_key(&self, ns: Seq<char>) -> VKey { VKey::MU(ns, *self as nat) } }
impl<'a, 'b> VxKeyOf for (&'a str, &'b str) { open spec fn vx_key(&self, ns: Seq<char>) -> VKey { VKey::M2(ns, self.0@, self.1@) } }
impl<'a> VxKeyOf for (u64, &'a str) { open spec fn vx_key(&self, ns: Seq<char>) -> VKey { VKey::MUS(ns, self.0 as nat, self.1@) } }
pub trait PrimaryKey<'a> {}
impl<'a> PrimaryKey<'a> for &'a str {}
impl<'a> PrimaryKey<'a> for u64 {}
impl<'a> PrimaryKey<'a> for String {}
pub enum Bound<'a, K> { Inclusive((K, core::marker::PhantomData<&'a bool>)), Exclusive((K, core::marker::PhantomData<&'a bool>)) }
impl<'a, K> Bound<'a, K> {
    pub open spec fn bk(&self) -> K { match self { Bound::Inclusive(x) => x.0, Bound::Exclusive(x) => x.0 } }
    pub open spec fn excl(&self) -> bool { self is Exclusive }
    #[verifier::external_body] pub fn exclusive(k: K) -> (r: Self) ensures r.bk() == k, r.excl() { unimplemented!() }
    #[verifier::external_body] pub fn inclusive(k: K) -> (r: Self) ensures r.bk() == k, !r.excl() { unimplemented!() }
}
// ks: the stored keys of a namespace that lie within the bounds, each once, in the requested order
pub open spec fn s_lo(lo: Option<(Seq<char>, bool)>, k: Seq<char>) -> bool { match lo { None => true, Some(b) => if b.1 { str_lt(b.0, k) } else { str_le(b.0, k) } } }
pub open spec fn s_hi(hi: Option<(Seq<char>, bool)>, k: Seq<char>) -> bool { match hi { None => true, Some(b) => if b.1 { str_lt(k, b.0) } else { str_le(k, b.0) } } }
pub open spec fn listed_s(st: vstd::prelude::Map<VKey, Val>, key: spec_fn(Seq<char>) -> VKey, lo: Option<(Seq<char>, bool)>, hi: Option<(Seq<char>, bool)>, o: Order, ks: Seq<Seq<char>>) -> bool {
    &&& forall|i: int| 0 <= i < ks.len() ==> #[trigger] st.dom().contains(key(ks[i])) && s_lo(lo, ks[i]) && s_hi(hi, ks[i])
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> if o is Ascending { #[trigger] str_lt(ks[i], ks[j]) } else { str_lt(#[trigger] ks[j], #[trigger] ks[i]) }
    &&& forall|k: Seq<char>| #[trigger] st.dom().contains(key(k)) && s_lo(lo, k) && s_hi(hi, k) ==> ks.contains(k)
}
pub open spec fn u_lo(lo: Option<(u64, bool)>, k: u64) -> bool { match lo { None => true, Some(b) => if b.1 { b.0 < k } else { b.0 <= k } } }
pub open spec fn u_hi(hi: Option<(u64, bool)>, k: u64) -> bool { match hi { None => true, Some(b) => if b.1 { k < b.0 } else { k <= b.0 } } }
pub open spec fn listed_u(st: vstd::prelude::Map<VKey, Val>, key: spec_fn(u64) -> VKey, lo: Option<(u64, bool)>, hi: Option<(u64, bool)>, o: Order, ks: Seq<u64>) -> bool {
    &&& forall|i: int| 0 <= i < ks.len() ==> #[trigger] st.dom().contains(key(ks[i])) && u_lo(lo, ks[i]) && u_hi(hi, ks[i])
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> if o is Ascending { #[trigger] ks[i] < #[trigger] ks[j] } else { ks[j] < ks[i] }
    &&& forall|k: u64| #[trigger] st.dom().contains(key(k)) && u_lo(lo, k) && u_hi(hi, k) ==> ks.contains(k)
}
pub open spec fn obs(b: Option<Bound<'_, &str>>) -> Option<(Seq<char>, bool)> { match b { None => None, Some(x) => Some((x.bk()@, x.excl())) } }
pub open spec fn obu(b: Option<Bound<'_, u64>>) -> Option<(u64, bool)> { match b { None => None, Some(x) => Some((x.bk(), x.excl())) } }
pub open spec fn items_s<T>(st: vstd::prelude::Map<VKey, Val>, key: spec_fn(Seq<char>) -> VKey, ks: Seq<Seq<char>>, out: Seq<StdResult<(String, T)>>) -> bool {
    out.len() == ks.len() && forall|i: int| #![trigger out[i]] 0 <= i < out.len() && out[i] is Ok ==> out[i]->Ok_0.0@ == ks[i] && out[i]->Ok_0.1 == dec::<T>(st[key(ks[i])])
}
pub open spec fn items_u<T>(st: vstd::prelude::Map<VKey, Val>, key: spec_fn(u64) -> VKey, ks: Seq<u64>, out: Seq<StdResult<(u64, T)>>) -> bool {
    out.len() == ks.len() && forall|i: int| #![trigger out[i]] 0 <= i < out.len() && out[i] is Ok ==> out[i]->Ok_0.0 == ks[i] && out[i]->Ok_0.1 == dec::<T>(st[key(ks[i])])
}
pub ghost enum PKey { S(Seq<char>, Seq<char>), U(Seq<char>, nat) }
pub open spec fn pk_key(p: PKey) -> spec_fn(Seq<char>) -> VKey { match p { PKey::S(ns, a) => |k: Seq<char>| VKey::M2(ns, a, k), PKey::U(ns, n) => |k: Seq<char>| VKey::MUS(ns, n, k) } }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Prefix<T> { x: core::marker::PhantomData<T> }
impl<T> Prefix<T> {
    pub uninterp spec fn view(&self) -> PKey;
    #[verifier::external_body] pub fn range<'x>(&self, s: &Storage, min: Option<Bound<'x, &'x str>>, max: Option<Bound<'x, &'x str>>, o: Order) -> (r: VxIter<StdResult<(String, T)>>)
        ensures exists|ks: Seq<Seq<char>>| #[trigger] listed_s(s@, pk_key(self@), obs(min), obs(max), o, ks) && items_s(s@, pk_key(self@), ks, r@) { unimplemented!() }
}
impl<'a, 'b, T> Map<(&'a str, &'b str), T> { #[verifier::external_body] pub fn prefix(&self, p: &str) -> (r: Prefix<T>) ensures r@ == PKey::S(self.k@, p@) { unimplemented!() } }
impl<'a, T> Map<(u64, &'a str), T> { #[verifier::external_body] pub fn prefix(&self, p: u64) -> (r: Prefix<T>) ensures r@ == PKey::U(self.k@, p as nat) { unimplemented!() } }
pub open spec fn m1_key(ns: Seq<char>) -> spec_fn(Seq<char>) -> VKey { |k: Seq<char>| VKey::M1(ns, k) }
pub open spec fn mu_key(ns: Seq<char>) -> spec_fn(u64) -> VKey { |k: u64| VKey::MU(ns, k as nat) }
impl<'a, T> Map<&'a str, T> { #[verifier::external_body] pub fn range<'x>(&self, s: &Storage, min: Option<Bound<'x, &'x str>>, max: Option<Bound<'x, &'x str>>, o: Order) -> (r: VxIter<StdResult<(String, T)>>)
        ensures exists|ks: Seq<Seq<char>>| #[trigger] listed_s(s@, m1_key(self.k@), obs(min), obs(max), o, ks) && items_s(s@, m1_key(self.k@), ks, r@) { unimplemented!() } }
impl<T> Map<u64, T> { #[verifier::external_body] pub fn range<'x>(&self, s: &Storage, min: Option<Bound<'x, u64>>, max: Option<Bound<'x, u64>>, o: Order) -> (r: VxIter<StdResult<(u64, T)>>)
        ensures exists|ks: Seq<u64>| #[trigger] listed_u(s@, mu_key(self.k@), obu(min), obu(max), o, ks) && items_u(s@, mu_key(self.k@), ks, r@) { unimplemented!() } }
pub struct Map<K, T> { pub k: &'static str, pub p: core::marker::PhantomData<(K, T)> }
impl<K: VxKeyOf, T> Map<K, T> {
    pub open spec fn ns(&self) -> Seq<char> { self.k@ }
    pub const fn new(k: &'static str) -> (r: Self) ensures r.k@ == k@ { Map { k, p: core::marker::PhantomData } }
    #[verifier::external_body] pub fn load(&self, s: &Storage, k: K) -> (r: StdResult<T>)
        ensures r is Ok ==> s@.dom().contains(k.vx_key(self.k@)) && r->Ok_0 == dec::<T>(s@[k.vx_key(self.k@)]), !s@.dom().contains(k.vx_key(self.k@)) ==> r is Err { unimplemented!() }
    #[verifier::external_body] pub fn may_load(&self, s: &Storage, k: K) -> (r: StdResult<Option<T>>)
        ensures r is Ok ==> (r->Ok_0 is Some) == s@.dom().contains(k.vx_key(self.k@)), r is Ok && r->Ok_0 is Some ==> r->Ok_0->0 == dec::<T>(s@[k.vx_key(self.k@)]), !s@.dom().contains(k.vx_key(self.k@)) ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn has(&self, s: &Storage, k: K) -> (r: bool) ensures r == s@.dom().contains(k.vx_key(self.k@)) { unimplemented!() }
    #[verifier::external_body] pub fn save(&self, s: &mut Storage, k: K, t: &T) -> (r: StdResult<()>)
        ensures r is Ok ==> final(s)@ == old(s)@.insert(k.vx_key(self.k@), enc::<T>(*t)) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&self, s: &mut Storage, k: K) ensures final(s)@ == old(s)@.remove(k.vx_key(self.k@)) { unimplemented!() }
}
// ---- indexed maps. An index listing is what the primary map holds, restricted to the entries the index
// function maps to the given key (the index maintenance inside IndexedMap::save is assumed).
pub trait VxIdxKey { spec fn vx_ik(&self) -> Seq<char>; }
impl<'a> VxIdxKey for &'a str { open spec fn vx_ik(&self) -> Seq<char> { self@ } }
impl VxIdxKey for String { open spec fn vx_ik(&self) -> Seq<char> { self@ } }
impl VxIdxKey for Addr { open spec fn vx_ik(&self) -> Seq<char> { self@ } }
impl<'a, T: VxIdxKey + ?Sized> VxIdxKey for &'a T { open spec fn vx_ik(&self) -> Seq<char> { (**self).vx_ik() } }
#[verifier::reject_recursive_types(IK)] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(PK)]
pub struct MultiIndex<'a, IK, T, PK> { pub pns: &'a str, pub ins: &'a str, pub f: Ghost<spec_fn(T) -> Seq<char>>, pub p: core::marker::PhantomData<(IK, PK)> }
impl<'a, IK: VxIdxKey, T, PK> MultiIndex<'a, IK, T, PK> {
    #[verifier::external_body] pub fn new<F: Fn(&[u8], &T) -> IK>(f: F, pns: &'a str, ins: &'static str) -> (r: Self)
        requires forall|b: &[u8], t: &T| #[trigger] call_requires(f, (b, t)),
        ensures r.pns@ == pns@, r.ins@ == ins@, forall|t: T| #![trigger (r.f@)(t)] exists|b: &[u8], q: IK| #![trigger call_ensures(f, (b, &t), q)] call_ensures(f, (b, &t), q) && q.vx_ik() == (r.f@)(t) { unimplemented!() }
    #[verifier::external_body] pub fn prefix(&self, k: IK) -> (r: IPrefix<T>) ensures r.ns@ == self.pns@, forall|t: T| #[trigger] (r.f@)(t) == ((self.f@)(t) == k.vx_ik()) { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
pub struct IPrefix<T> { pub ns: Ghost<Seq<char>>, pub f: Ghost<spec_fn(T) -> bool> }
pub open spec fn sel<T>(st: vstd::prelude::Map<VKey, Val>, ns: Seq<char>, f: spec_fn(T) -> bool, k: u64) -> bool { st.dom().contains(VKey::MU(ns, k as nat)) && f(dec::<T>(st[VKey::MU(ns, k as nat)])) }
// ks: the keys of the selected entries within the bounds, each once, in the requested order
pub open spec fn listed_f<T>(st: vstd::prelude::Map<VKey, Val>, ns: Seq<char>, f: spec_fn(T) -> bool, lo: Option<(u64, bool)>, hi: Option<(u64, bool)>, o: Order, ks: Seq<u64>) -> bool {
    &&& forall|i: int| 0 <= i < ks.len() ==> sel::<T>(st, ns, f, #[trigger] ks[i]) && u_lo(lo, ks[i]) && u_hi(hi, ks[i])
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> if o is Ascending { #[trigger] ks[i] < #[trigger] ks[j] } else { ks[j] < ks[i] }
    &&& forall|k: u64| #[trigger] sel::<T>(st, ns, f, k) && u_lo(lo, k) && u_hi(hi, k) ==> ks.contains(k)
}
impl<T> IPrefix<T> {
    #[verifier::external_body] pub fn range<'x>(&self, s: &Storage, min: Option<Bound<'x, u64>>, max: Option<Bound<'x, u64>>, o: Order) -> (r: VxIter<StdResult<(u64, T)>>)
        ensures exists|ks: Seq<u64>| #[trigger] listed_f(s@, self.ns@, self.f@, obu(min), obu(max), o, ks) && items_u(s@, mu_key(self.ns@), ks, r@) { unimplemented!() }
}
pub struct IndexedMap<'a, K, T, I> { pub k: &'a str, pub idx: I, pub p: core::marker::PhantomData<(K, T)> }
impl<'a, K: VxKeyOf, T, I> IndexedMap<'a, K, T, I> {
    pub open spec fn ns(&self) -> Seq<char> { self.k@ }
    pub const fn new(k: &'a str, idx: I) -> (r: Self) ensures r.k@ == k@, r.idx == idx { IndexedMap { k, idx, p: core::marker::PhantomData } }
    #[verifier::external_body] pub fn load(&self, s: &Storage, k: K) -> (r: StdResult<T>)
        ensures r is Ok ==> s@.dom().contains(k.vx_key(self.k@)) && r->Ok_0 == dec::<T>(s@[k.vx_key(self.k@)]), !s@.dom().contains(k.vx_key(self.k@)) ==> r is Err { unimplemented!() }
    #[verifier::external_body] pub fn may_load(&self, s: &Storage, k: K) -> (r: StdResult<Option<T>>)
        ensures r is Ok ==> (r->Ok_0 is Some) == s@.dom().contains(k.vx_key(self.k@)), r is Ok && r->Ok_0 is Some ==> r->Ok_0->0 == dec::<T>(s@[k.vx_key(self.k@)]), !s@.dom().contains(k.vx_key(self.k@)) ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn has(&self, s: &Storage, k: K) -> (r: bool) ensures r == s@.dom().contains(k.vx_key(self.k@)) { unimplemented!() }
    #[verifier::external_body] pub fn save(&self, s: &mut Storage, k: K, t: &T) -> (r: StdResult<()>)
        ensures r is Ok ==> final(s)@ == old(s)@.insert(k.vx_key(self.k@), enc::<T>(*t)) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&self, s: &mut Storage, k: K) -> (r: StdResult<()>) ensures r is Ok ==> final(s)@ == old(s)@.remove(k.vx_key(self.k@)) { unimplemented!() }
}
impl<'a, T, I> IndexedMap<'a, u64, T, I> { #[verifier::external_body] pub fn range<'x>(&self, s: &Storage, min: Option<Bound<'x, u64>>, max: Option<Bound<'x, u64>>, o: Order) -> (r: VxIter<StdResult<(u64, T)>>)
        ensures exists|ks: Seq<u64>| #[trigger] listed_u(s@, mu_key(self.k@), obu(min), obu(max), o, ks) && items_u(s@, mu_key(self.k@), ks, r@) { unimplemented!() } }
pub trait Index<T> {}
pub trait IndexList<T> {}
}
pub mod cw_utils {
use vstd::prelude::*;
use crate::vx::*;
use crate::cosmwasm_std::*;
#[verifier::external_body] pub struct PaymentError { s: String }
#[verifier::external_body] pub struct ParseReplyError { s: String }
#[verifier::external_body] pub fn must_pay(i: &MessageInfo, d: &str) -> (r: Result<Uint128, PaymentError>) ensures r is Ok ==> i.funds@.len() == 1 && i.funds@[0].denom@ == d@ && i.funds@[0].amount == r->Ok_0 && r->Ok_0.v > 0 { unimplemented!() }
#[verifier::external_body] pub fn may_pay(i: &MessageInfo, d: &str) -> (r: Result<Uint128, PaymentError>) ensures r is Ok ==> (i.funds@.len() == 0 && r->Ok_0.v == 0) || (i.funds@.len() == 1 && i.funds@[0].denom@ == d@ && i.funds@[0].amount == r->Ok_0 && r->Ok_0.v > 0) { unimplemented!() }
#[verifier::external_body] pub fn one_coin(i: &MessageInfo) -> (r: Result<Coin, PaymentError>) ensures r is Ok ==> i.funds@.len() == 1 && i.funds@[0] == r->Ok_0 && r->Ok_0.amount.v > 0 { unimplemented!() }
#[verifier::external_body] pub fn nonpayable(i: &MessageInfo) -> (r: Result<(), PaymentError>) ensures r is Ok ==> i.funds@.len() == 0 { unimplemented!() }
}
pub mod cw2 {
use vstd::prelude::*;
use crate::vx::*;
use crate::cosmwasm_std::*;
pub struct ContractVersion { pub contract: String, pub version: String }
pub open spec fn version_key() -> VKey { VKey::Item("contract_info"@) }
pub open spec fn stored_version(s: Map<VKey, Val>) -> ContractVersion { dec::<ContractVersion>(s[version_key()]) }
#[verifier::external_body] pub fn set_contract_version<T: VxInto<String>, U: VxInto<String>>(s: &mut Storage, c: T, v: U) -> (r: StdResult<()>)
    ensures r is Ok ==> exists|x: ContractVersion| #![trigger enc::<ContractVersion>(x)] c.vx_into_spec(x.contract) && v.vx_into_spec(x.version) && final(s)@ == old(s)@.insert(version_key(), enc::<ContractVersion>(x)) { unimplemented!() }
#[verifier::external_body] pub fn get_contract_version(s: &Storage) -> (r: StdResult<ContractVersion>)
    ensures r is Ok ==> s@.dom().contains(version_key()) && r->Ok_0 == stored_version(s@) { unimplemented!() }
}
pub mod semver {
use vstd::prelude::*;
use crate::vx::*;
#[verifier::external_body] pub struct Error { s: String }
impl VxDisplay for Error { uninterp spec fn vx_disp(&self) -> Seq<char>; }
#[verifier::external_body] pub struct Version { s: String }
// semantic-versioning order, as an abstract total preorder on version strings
pub uninterp spec fn ver_lt(a: Seq<char>, b: Seq<char>) -> bool;
pub uninterp spec fn ver_eq(a: Seq<char>, b: Seq<char>) -> bool;
pub broadcast axiom fn ax_ver(a: Seq<char>, b: Seq<char>) ensures #[trigger] ver_lt(a, b) ==> !ver_lt(b, a) && !ver_eq(a, b) && !ver_eq(b, a), !ver_lt(a, b) && !ver_eq(a, b) ==> ver_lt(b, a), ver_eq(a, b) == ver_eq(b, a);
impl Version { pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn parse(s: &str) -> (r: Result<Version, Error>) ensures r is Ok ==> r->Ok_0@ == s@ { unimplemented!() } }
impl VxOrd<Version> for Version { open spec fn vx_lts(&self, o: &Version) -> bool { ver_lt(self@, o@) } open spec fn vx_les(&self, o: &Version) -> bool { !ver_lt(o@, self@) } }
impl VxEq<Version> for Version { open spec fn vx_eqs(&self, o: &Version) -> bool { ver_eq(self@, o@) } #[verifier::external_body] fn vx_eq(&self, o: &Version) -> (r: bool) { unimplemented!() } }
}
// the specification vocabulary, for glob import
pub mod vocab {
pub use crate::vx::{int_str, utf8, splitc, joinc, bytes_le, vx_kept, vx_perm, vx_perm_by, str_lt, str_le};
pub use crate::cosmwasm_std::{CoinV, coinsv, VKey, Val, enc, dec, e18, mfloor, mceil, dpow, dpow_go, dec_lit, dparse, p10, dsum, MsgV, ocoin, oc, seqv, rin, rout, addr_ok, secp_ok, qraw, json, unjson};
pub use crate::cw_msgs::{est_in, est_out};
pub use crate::cw2::{stored_version, version_key, ContractVersion};
pub use crate::semver::{ver_lt, ver_eq};
pub use crate::cw_storage_plus::{m1_key, mu_key, pk_key, PKey, listed_s, listed_u, listed_f, sel, items_s, items_u, obs, obu};
}
pub mod osmosis_std {
pub mod types { pub mod osmosis {
    pub mod tokenfactory { pub mod v1beta1 { pub use crate::cw_msgs::{MsgMint, MsgBurn, MsgCreateDenom, MsgCreateDenomResponse}; } }
    pub mod poolmanager { pub mod v1beta1 { pub use crate::cw_msgs::{MsgSwapExactAmountIn, MsgSwapExactAmountOut, SwapAmountInRoute, SwapAmountOutRoute, PoolRequest, EstimateSwapExactAmountOutRequest, EstimateSwapExactAmountOutResponse, EstimateSwapExactAmountInResponse, PoolmanagerQuerier}; } }
} }
}
}
''')
open('/verif/verus/shim/cosmwasm.rs','w').write(''.join(o))
