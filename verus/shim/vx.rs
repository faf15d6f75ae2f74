use vstd::prelude::*;
// Assumed contracts for the parts of the Rust standard library the contracts use.
// A panic reverts the transaction, so every function here states what holds *if it returns*.
verus! {
pub mod vx {
use vstd::prelude::*;
pub use crate::vxstd::BTreeMap;

// two strings (vectors) with the same content are the same value
// a string is its characters
pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub broadcast axiom fn ax_string_ext(a: String) ensures string_of(#[trigger] a@) == a;
pub axiom fn ax_vec_ext<T>(a: Vec<T>, b: Vec<T>) ensures a@ == b@ ==> a == b;
pub axiom fn ax_string_of(s: Seq<char>) -> (r: String) ensures r@ == s;
pub axiom fn ax_vec_of<T>(s: Seq<T>) -> (r: Vec<T>) ensures r@ == s;

#[verifier::external_body]
pub fn vx_assert(b: bool) ensures b { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic() -> ! { unimplemented!() }
#[verifier::external_body]
pub fn vx_idx(i: usize, n: usize) -> (r: usize) ensures r == i, i < n { unimplemented!() }

// ---- arithmetic (overflow panics, i.e. reverts)
pub trait VxAdd<B>: Sized { type O; spec fn vx_add_s(a: Self, b: B, r: Self::O) -> bool; }
#[verifier::external_body]
pub fn vx_add<A: VxAdd<B>, B>(a: A, b: B) -> (r: A::O) ensures A::vx_add_s(a, b, r) { unimplemented!() }
impl VxAdd<u8> for u8 { type O = u8; open spec fn vx_add_s(a: u8, b: u8, r: u8) -> bool { r as int == a as int + b as int } }
impl<'a> VxAdd<u8> for &'a u8 { type O = u8; open spec fn vx_add_s(a: &'a u8, b: u8, r: u8) -> bool { <u8 as VxAdd<u8>>::vx_add_s(*a, b, r) } }
impl<'a> VxAdd<&'a u8> for u8 { type O = u8; open spec fn vx_add_s(a: u8, b: &'a u8, r: u8) -> bool { <u8 as VxAdd<u8>>::vx_add_s(a, *b, r) } }
impl VxAdd<u16> for u16 { type O = u16; open spec fn vx_add_s(a: u16, b: u16, r: u16) -> bool { r as int == a as int + b as int } }
impl<'a> VxAdd<u16> for &'a u16 { type O = u16; open spec fn vx_add_s(a: &'a u16, b: u16, r: u16) -> bool { <u16 as VxAdd<u16>>::vx_add_s(*a, b, r) } }
impl<'a> VxAdd<&'a u16> for u16 { type O = u16; open spec fn vx_add_s(a: u16, b: &'a u16, r: u16) -> bool { <u16 as VxAdd<u16>>::vx_add_s(a, *b, r) } }
impl VxAdd<u32> for u32 { type O = u32; open spec fn vx_add_s(a: u32, b: u32, r: u32) -> bool { r as int == a as int + b as int } }
impl<'a> VxAdd<u32> for &'a u32 { type O = u32; open spec fn vx_add_s(a: &'a u32, b: u32, r: u32) -> bool { <u32 as VxAdd<u32>>::vx_add_s(*a, b, r) } }
impl<'a> VxAdd<&'a u32> for u32 { type O = u32; open spec fn vx_add_s(a: u32, b: &'a u32, r: u32) -> bool { <u32 as VxAdd<u32>>::vx_add_s(a, *b, r) } }
impl VxAdd<u64> for u64 { type O = u64; open spec fn vx_add_s(a: u64, b: u64, r: u64) -> bool { r as int == a as int + b as int } }
impl<'a> VxAdd<u64> for &'a u64 { type O = u64; open spec fn vx_add_s(a: &'a u64, b: u64, r: u64) -> bool { <u64 as VxAdd<u64>>::vx_add_s(*a, b, r) } }
impl<'a> VxAdd<&'a u64> for u64 { type O = u64; open spec fn vx_add_s(a: u64, b: &'a u64, r: u64) -> bool { <u64 as VxAdd<u64>>::vx_add_s(a, *b, r) } }
impl VxAdd<u128> for u128 { type O = u128; open spec fn vx_add_s(a: u128, b: u128, r: u128) -> bool { r as int == a as int + b as int } }
impl<'a> VxAdd<u128> for &'a u128 { type O = u128; open spec fn vx_add_s(a: &'a u128, b: u128, r: u128) -> bool { <u128 as VxAdd<u128>>::vx_add_s(*a, b, r) } }
impl<'a> VxAdd<&'a u128> for u128 { type O = u128; open spec fn vx_add_s(a: u128, b: &'a u128, r: u128) -> bool { <u128 as VxAdd<u128>>::vx_add_s(a, *b, r) } }
impl VxAdd<usize> for usize { type O = usize; open spec fn vx_add_s(a: usize, b: usize, r: usize) -> bool { r as int == a as int + b as int } }
impl<'a> VxAdd<usize> for &'a usize { type O = usize; open spec fn vx_add_s(a: &'a usize, b: usize, r: usize) -> bool { <usize as VxAdd<usize>>::vx_add_s(*a, b, r) } }
impl<'a> VxAdd<&'a usize> for usize { type O = usize; open spec fn vx_add_s(a: usize, b: &'a usize, r: usize) -> bool { <usize as VxAdd<usize>>::vx_add_s(a, *b, r) } }
impl VxAdd<i32> for i32 { type O = i32; open spec fn vx_add_s(a: i32, b: i32, r: i32) -> bool { r as int == a as int + b as int } }
impl<'a> VxAdd<i32> for &'a i32 { type O = i32; open spec fn vx_add_s(a: &'a i32, b: i32, r: i32) -> bool { <i32 as VxAdd<i32>>::vx_add_s(*a, b, r) } }
impl<'a> VxAdd<&'a i32> for i32 { type O = i32; open spec fn vx_add_s(a: i32, b: &'a i32, r: i32) -> bool { <i32 as VxAdd<i32>>::vx_add_s(a, *b, r) } }
impl VxAdd<i64> for i64 { type O = i64; open spec fn vx_add_s(a: i64, b: i64, r: i64) -> bool { r as int == a as int + b as int } }
impl<'a> VxAdd<i64> for &'a i64 { type O = i64; open spec fn vx_add_s(a: &'a i64, b: i64, r: i64) -> bool { <i64 as VxAdd<i64>>::vx_add_s(*a, b, r) } }
impl<'a> VxAdd<&'a i64> for i64 { type O = i64; open spec fn vx_add_s(a: i64, b: &'a i64, r: i64) -> bool { <i64 as VxAdd<i64>>::vx_add_s(a, *b, r) } }
impl VxAdd<i128> for i128 { type O = i128; open spec fn vx_add_s(a: i128, b: i128, r: i128) -> bool { r as int == a as int + b as int } }
impl<'a> VxAdd<i128> for &'a i128 { type O = i128; open spec fn vx_add_s(a: &'a i128, b: i128, r: i128) -> bool { <i128 as VxAdd<i128>>::vx_add_s(*a, b, r) } }
impl<'a> VxAdd<&'a i128> for i128 { type O = i128; open spec fn vx_add_s(a: i128, b: &'a i128, r: i128) -> bool { <i128 as VxAdd<i128>>::vx_add_s(a, *b, r) } }
pub trait VxSub<B>: Sized { type O; spec fn vx_sub_s(a: Self, b: B, r: Self::O) -> bool; }
#[verifier::external_body]
pub fn vx_sub<A: VxSub<B>, B>(a: A, b: B) -> (r: A::O) ensures A::vx_sub_s(a, b, r) { unimplemented!() }
impl VxSub<u8> for u8 { type O = u8; open spec fn vx_sub_s(a: u8, b: u8, r: u8) -> bool { r as int == a as int - b as int } }
impl<'a> VxSub<u8> for &'a u8 { type O = u8; open spec fn vx_sub_s(a: &'a u8, b: u8, r: u8) -> bool { <u8 as VxSub<u8>>::vx_sub_s(*a, b, r) } }
impl<'a> VxSub<&'a u8> for u8 { type O = u8; open spec fn vx_sub_s(a: u8, b: &'a u8, r: u8) -> bool { <u8 as VxSub<u8>>::vx_sub_s(a, *b, r) } }
impl VxSub<u16> for u16 { type O = u16; open spec fn vx_sub_s(a: u16, b: u16, r: u16) -> bool { r as int == a as int - b as int } }
impl<'a> VxSub<u16> for &'a u16 { type O = u16; open spec fn vx_sub_s(a: &'a u16, b: u16, r: u16) -> bool { <u16 as VxSub<u16>>::vx_sub_s(*a, b, r) } }
impl<'a> VxSub<&'a u16> for u16 { type O = u16; open spec fn vx_sub_s(a: u16, b: &'a u16, r: u16) -> bool { <u16 as VxSub<u16>>::vx_sub_s(a, *b, r) } }
impl VxSub<u32> for u32 { type O = u32; open spec fn vx_sub_s(a: u32, b: u32, r: u32) -> bool { r as int == a as int - b as int } }
impl<'a> VxSub<u32> for &'a u32 { type O = u32; open spec fn vx_sub_s(a: &'a u32, b: u32, r: u32) -> bool { <u32 as VxSub<u32>>::vx_sub_s(*a, b, r) } }
impl<'a> VxSub<&'a u32> for u32 { type O = u32; open spec fn vx_sub_s(a: u32, b: &'a u32, r: u32) -> bool { <u32 as VxSub<u32>>::vx_sub_s(a, *b, r) } }
impl VxSub<u64> for u64 { type O = u64; open spec fn vx_sub_s(a: u64, b: u64, r: u64) -> bool { r as int == a as int - b as int } }
impl<'a> VxSub<u64> for &'a u64 { type O = u64; open spec fn vx_sub_s(a: &'a u64, b: u64, r: u64) -> bool { <u64 as VxSub<u64>>::vx_sub_s(*a, b, r) } }
impl<'a> VxSub<&'a u64> for u64 { type O = u64; open spec fn vx_sub_s(a: u64, b: &'a u64, r: u64) -> bool { <u64 as VxSub<u64>>::vx_sub_s(a, *b, r) } }
impl VxSub<u128> for u128 { type O = u128; open spec fn vx_sub_s(a: u128, b: u128, r: u128) -> bool { r as int == a as int - b as int } }
impl<'a> VxSub<u128> for &'a u128 { type O = u128; open spec fn vx_sub_s(a: &'a u128, b: u128, r: u128) -> bool { <u128 as VxSub<u128>>::vx_sub_s(*a, b, r) } }
impl<'a> VxSub<&'a u128> for u128 { type O = u128; open spec fn vx_sub_s(a: u128, b: &'a u128, r: u128) -> bool { <u128 as VxSub<u128>>::vx_sub_s(a, *b, r) } }
impl VxSub<usize> for usize { type O = usize; open spec fn vx_sub_s(a: usize, b: usize, r: usize) -> bool { r as int == a as int - b as int } }
impl<'a> VxSub<usize> for &'a usize { type O = usize; open spec fn vx_sub_s(a: &'a usize, b: usize, r: usize) -> bool { <usize as VxSub<usize>>::vx_sub_s(*a, b, r) } }
impl<'a> VxSub<&'a usize> for usize { type O = usize; open spec fn vx_sub_s(a: usize, b: &'a usize, r: usize) -> bool { <usize as VxSub<usize>>::vx_sub_s(a, *b, r) } }
impl VxSub<i32> for i32 { type O = i32; open spec fn vx_sub_s(a: i32, b: i32, r: i32) -> bool { r as int == a as int - b as int } }
impl<'a> VxSub<i32> for &'a i32 { type O = i32; open spec fn vx_sub_s(a: &'a i32, b: i32, r: i32) -> bool { <i32 as VxSub<i32>>::vx_sub_s(*a, b, r) } }
impl<'a> VxSub<&'a i32> for i32 { type O = i32; open spec fn vx_sub_s(a: i32, b: &'a i32, r: i32) -> bool { <i32 as VxSub<i32>>::vx_sub_s(a, *b, r) } }
impl VxSub<i64> for i64 { type O = i64; open spec fn vx_sub_s(a: i64, b: i64, r: i64) -> bool { r as int == a as int - b as int } }
impl<'a> VxSub<i64> for &'a i64 { type O = i64; open spec fn vx_sub_s(a: &'a i64, b: i64, r: i64) -> bool { <i64 as VxSub<i64>>::vx_sub_s(*a, b, r) } }
impl<'a> VxSub<&'a i64> for i64 { type O = i64; open spec fn vx_sub_s(a: i64, b: &'a i64, r: i64) -> bool { <i64 as VxSub<i64>>::vx_sub_s(a, *b, r) } }
impl VxSub<i128> for i128 { type O = i128; open spec fn vx_sub_s(a: i128, b: i128, r: i128) -> bool { r as int == a as int - b as int } }
impl<'a> VxSub<i128> for &'a i128 { type O = i128; open spec fn vx_sub_s(a: &'a i128, b: i128, r: i128) -> bool { <i128 as VxSub<i128>>::vx_sub_s(*a, b, r) } }
impl<'a> VxSub<&'a i128> for i128 { type O = i128; open spec fn vx_sub_s(a: i128, b: &'a i128, r: i128) -> bool { <i128 as VxSub<i128>>::vx_sub_s(a, *b, r) } }
pub trait VxMul<B>: Sized { type O; spec fn vx_mul_s(a: Self, b: B, r: Self::O) -> bool; }
#[verifier::external_body]
pub fn vx_mul<A: VxMul<B>, B>(a: A, b: B) -> (r: A::O) ensures A::vx_mul_s(a, b, r) { unimplemented!() }
impl VxMul<u8> for u8 { type O = u8; open spec fn vx_mul_s(a: u8, b: u8, r: u8) -> bool { r as int == a as int * b as int } }
impl<'a> VxMul<u8> for &'a u8 { type O = u8; open spec fn vx_mul_s(a: &'a u8, b: u8, r: u8) -> bool { <u8 as VxMul<u8>>::vx_mul_s(*a, b, r) } }
impl<'a> VxMul<&'a u8> for u8 { type O = u8; open spec fn vx_mul_s(a: u8, b: &'a u8, r: u8) -> bool { <u8 as VxMul<u8>>::vx_mul_s(a, *b, r) } }
impl VxMul<u16> for u16 { type O = u16; open spec fn vx_mul_s(a: u16, b: u16, r: u16) -> bool { r as int == a as int * b as int } }
impl<'a> VxMul<u16> for &'a u16 { type O = u16; open spec fn vx_mul_s(a: &'a u16, b: u16, r: u16) -> bool { <u16 as VxMul<u16>>::vx_mul_s(*a, b, r) } }
impl<'a> VxMul<&'a u16> for u16 { type O = u16; open spec fn vx_mul_s(a: u16, b: &'a u16, r: u16) -> bool { <u16 as VxMul<u16>>::vx_mul_s(a, *b, r) } }
impl VxMul<u32> for u32 { type O = u32; open spec fn vx_mul_s(a: u32, b: u32, r: u32) -> bool { r as int == a as int * b as int } }
impl<'a> VxMul<u32> for &'a u32 { type O = u32; open spec fn vx_mul_s(a: &'a u32, b: u32, r: u32) -> bool { <u32 as VxMul<u32>>::vx_mul_s(*a, b, r) } }
impl<'a> VxMul<&'a u32> for u32 { type O = u32; open spec fn vx_mul_s(a: u32, b: &'a u32, r: u32) -> bool { <u32 as VxMul<u32>>::vx_mul_s(a, *b, r) } }
impl VxMul<u64> for u64 { type O = u64; open spec fn vx_mul_s(a: u64, b: u64, r: u64) -> bool { r as int == a as int * b as int } }
impl<'a> VxMul<u64> for &'a u64 { type O = u64; open spec fn vx_mul_s(a: &'a u64, b: u64, r: u64) -> bool { <u64 as VxMul<u64>>::vx_mul_s(*a, b, r) } }
impl<'a> VxMul<&'a u64> for u64 { type O = u64; open spec fn vx_mul_s(a: u64, b: &'a u64, r: u64) -> bool { <u64 as VxMul<u64>>::vx_mul_s(a, *b, r) } }
impl VxMul<u128> for u128 { type O = u128; open spec fn vx_mul_s(a: u128, b: u128, r: u128) -> bool { r as int == a as int * b as int } }
impl<'a> VxMul<u128> for &'a u128 { type O = u128; open spec fn vx_mul_s(a: &'a u128, b: u128, r: u128) -> bool { <u128 as VxMul<u128>>::vx_mul_s(*a, b, r) } }
impl<'a> VxMul<&'a u128> for u128 { type O = u128; open spec fn vx_mul_s(a: u128, b: &'a u128, r: u128) -> bool { <u128 as VxMul<u128>>::vx_mul_s(a, *b, r) } }
impl VxMul<usize> for usize { type O = usize; open spec fn vx_mul_s(a: usize, b: usize, r: usize) -> bool { r as int == a as int * b as int } }
impl<'a> VxMul<usize> for &'a usize { type O = usize; open spec fn vx_mul_s(a: &'a usize, b: usize, r: usize) -> bool { <usize as VxMul<usize>>::vx_mul_s(*a, b, r) } }
impl<'a> VxMul<&'a usize> for usize { type O = usize; open spec fn vx_mul_s(a: usize, b: &'a usize, r: usize) -> bool { <usize as VxMul<usize>>::vx_mul_s(a, *b, r) } }
impl VxMul<i32> for i32 { type O = i32; open spec fn vx_mul_s(a: i32, b: i32, r: i32) -> bool { r as int == a as int * b as int } }
impl<'a> VxMul<i32> for &'a i32 { type O = i32; open spec fn vx_mul_s(a: &'a i32, b: i32, r: i32) -> bool { <i32 as VxMul<i32>>::vx_mul_s(*a, b, r) } }
impl<'a> VxMul<&'a i32> for i32 { type O = i32; open spec fn vx_mul_s(a: i32, b: &'a i32, r: i32) -> bool { <i32 as VxMul<i32>>::vx_mul_s(a, *b, r) } }
impl VxMul<i64> for i64 { type O = i64; open spec fn vx_mul_s(a: i64, b: i64, r: i64) -> bool { r as int == a as int * b as int } }
impl<'a> VxMul<i64> for &'a i64 { type O = i64; open spec fn vx_mul_s(a: &'a i64, b: i64, r: i64) -> bool { <i64 as VxMul<i64>>::vx_mul_s(*a, b, r) } }
impl<'a> VxMul<&'a i64> for i64 { type O = i64; open spec fn vx_mul_s(a: i64, b: &'a i64, r: i64) -> bool { <i64 as VxMul<i64>>::vx_mul_s(a, *b, r) } }
impl VxMul<i128> for i128 { type O = i128; open spec fn vx_mul_s(a: i128, b: i128, r: i128) -> bool { r as int == a as int * b as int } }
impl<'a> VxMul<i128> for &'a i128 { type O = i128; open spec fn vx_mul_s(a: &'a i128, b: i128, r: i128) -> bool { <i128 as VxMul<i128>>::vx_mul_s(*a, b, r) } }
impl<'a> VxMul<&'a i128> for i128 { type O = i128; open spec fn vx_mul_s(a: i128, b: &'a i128, r: i128) -> bool { <i128 as VxMul<i128>>::vx_mul_s(a, *b, r) } }
pub trait VxDiv<B>: Sized { type O; spec fn vx_div_s(a: Self, b: B, r: Self::O) -> bool; }
#[verifier::external_body]
pub fn vx_div<A: VxDiv<B>, B>(a: A, b: B) -> (r: A::O) ensures A::vx_div_s(a, b, r) { unimplemented!() }
impl VxDiv<u8> for u8 { type O = u8; open spec fn vx_div_s(a: u8, b: u8, r: u8) -> bool { b != 0 && r as int == a as int / b as int } }
impl<'a> VxDiv<u8> for &'a u8 { type O = u8; open spec fn vx_div_s(a: &'a u8, b: u8, r: u8) -> bool { <u8 as VxDiv<u8>>::vx_div_s(*a, b, r) } }
impl<'a> VxDiv<&'a u8> for u8 { type O = u8; open spec fn vx_div_s(a: u8, b: &'a u8, r: u8) -> bool { <u8 as VxDiv<u8>>::vx_div_s(a, *b, r) } }
impl VxDiv<u16> for u16 { type O = u16; open spec fn vx_div_s(a: u16, b: u16, r: u16) -> bool { b != 0 && r as int == a as int / b as int } }
impl<'a> VxDiv<u16> for &'a u16 { type O = u16; open spec fn vx_div_s(a: &'a u16, b: u16, r: u16) -> bool { <u16 as VxDiv<u16>>::vx_div_s(*a, b, r) } }
impl<'a> VxDiv<&'a u16> for u16 { type O = u16; open spec fn vx_div_s(a: u16, b: &'a u16, r: u16) -> bool { <u16 as VxDiv<u16>>::vx_div_s(a, *b, r) } }
impl VxDiv<u32> for u32 { type O = u32; open spec fn vx_div_s(a: u32, b: u32, r: u32) -> bool { b != 0 && r as int == a as int / b as int } }
impl<'a> VxDiv<u32> for &'a u32 { type O = u32; open spec fn vx_div_s(a: &'a u32, b: u32, r: u32) -> bool { <u32 as VxDiv<u32>>::vx_div_s(*a, b, r) } }
impl<'a> VxDiv<&'a u32> for u32 { type O = u32; open spec fn vx_div_s(a: u32, b: &'a u32, r: u32) -> bool { <u32 as VxDiv<u32>>::vx_div_s(a, *b, r) } }
impl VxDiv<u64> for u64 { type O = u64; open spec fn vx_div_s(a: u64, b: u64, r: u64) -> bool { b != 0 && r as int == a as int / b as int } }
impl<'a> VxDiv<u64> for &'a u64 { type O = u64; open spec fn vx_div_s(a: &'a u64, b: u64, r: u64) -> bool { <u64 as VxDiv<u64>>::vx_div_s(*a, b, r) } }
impl<'a> VxDiv<&'a u64> for u64 { type O = u64; open spec fn vx_div_s(a: u64, b: &'a u64, r: u64) -> bool { <u64 as VxDiv<u64>>::vx_div_s(a, *b, r) } }
impl VxDiv<u128> for u128 { type O = u128; open spec fn vx_div_s(a: u128, b: u128, r: u128) -> bool { b != 0 && r as int == a as int / b as int } }
impl<'a> VxDiv<u128> for &'a u128 { type O = u128; open spec fn vx_div_s(a: &'a u128, b: u128, r: u128) -> bool { <u128 as VxDiv<u128>>::vx_div_s(*a, b, r) } }
impl<'a> VxDiv<&'a u128> for u128 { type O = u128; open spec fn vx_div_s(a: u128, b: &'a u128, r: u128) -> bool { <u128 as VxDiv<u128>>::vx_div_s(a, *b, r) } }
impl VxDiv<usize> for usize { type O = usize; open spec fn vx_div_s(a: usize, b: usize, r: usize) -> bool { b != 0 && r as int == a as int / b as int } }
impl<'a> VxDiv<usize> for &'a usize { type O = usize; open spec fn vx_div_s(a: &'a usize, b: usize, r: usize) -> bool { <usize as VxDiv<usize>>::vx_div_s(*a, b, r) } }
impl<'a> VxDiv<&'a usize> for usize { type O = usize; open spec fn vx_div_s(a: usize, b: &'a usize, r: usize) -> bool { <usize as VxDiv<usize>>::vx_div_s(a, *b, r) } }
impl VxDiv<i32> for i32 { type O = i32; open spec fn vx_div_s(a: i32, b: i32, r: i32) -> bool { b != 0 && (a >= 0 && b > 0 ==> r as int == a as int / b as int) } }
impl<'a> VxDiv<i32> for &'a i32 { type O = i32; open spec fn vx_div_s(a: &'a i32, b: i32, r: i32) -> bool { <i32 as VxDiv<i32>>::vx_div_s(*a, b, r) } }
impl<'a> VxDiv<&'a i32> for i32 { type O = i32; open spec fn vx_div_s(a: i32, b: &'a i32, r: i32) -> bool { <i32 as VxDiv<i32>>::vx_div_s(a, *b, r) } }
impl VxDiv<i64> for i64 { type O = i64; open spec fn vx_div_s(a: i64, b: i64, r: i64) -> bool { b != 0 && (a >= 0 && b > 0 ==> r as int == a as int / b as int) } }
impl<'a> VxDiv<i64> for &'a i64 { type O = i64; open spec fn vx_div_s(a: &'a i64, b: i64, r: i64) -> bool { <i64 as VxDiv<i64>>::vx_div_s(*a, b, r) } }
impl<'a> VxDiv<&'a i64> for i64 { type O = i64; open spec fn vx_div_s(a: i64, b: &'a i64, r: i64) -> bool { <i64 as VxDiv<i64>>::vx_div_s(a, *b, r) } }
impl VxDiv<i128> for i128 { type O = i128; open spec fn vx_div_s(a: i128, b: i128, r: i128) -> bool { b != 0 && (a >= 0 && b > 0 ==> r as int == a as int / b as int) } }
impl<'a> VxDiv<i128> for &'a i128 { type O = i128; open spec fn vx_div_s(a: &'a i128, b: i128, r: i128) -> bool { <i128 as VxDiv<i128>>::vx_div_s(*a, b, r) } }
impl<'a> VxDiv<&'a i128> for i128 { type O = i128; open spec fn vx_div_s(a: i128, b: &'a i128, r: i128) -> bool { <i128 as VxDiv<i128>>::vx_div_s(a, *b, r) } }
pub trait VxRem<B>: Sized { type O; spec fn vx_rem_s(a: Self, b: B, r: Self::O) -> bool; }
#[verifier::external_body]
pub fn vx_rem<A: VxRem<B>, B>(a: A, b: B) -> (r: A::O) ensures A::vx_rem_s(a, b, r) { unimplemented!() }
impl VxRem<u8> for u8 { type O = u8; open spec fn vx_rem_s(a: u8, b: u8, r: u8) -> bool { b != 0 && r as int == a as int % b as int } }
impl<'a> VxRem<u8> for &'a u8 { type O = u8; open spec fn vx_rem_s(a: &'a u8, b: u8, r: u8) -> bool { <u8 as VxRem<u8>>::vx_rem_s(*a, b, r) } }
impl<'a> VxRem<&'a u8> for u8 { type O = u8; open spec fn vx_rem_s(a: u8, b: &'a u8, r: u8) -> bool { <u8 as VxRem<u8>>::vx_rem_s(a, *b, r) } }
impl VxRem<u16> for u16 { type O = u16; open spec fn vx_rem_s(a: u16, b: u16, r: u16) -> bool { b != 0 && r as int == a as int % b as int } }
impl<'a> VxRem<u16> for &'a u16 { type O = u16; open spec fn vx_rem_s(a: &'a u16, b: u16, r: u16) -> bool { <u16 as VxRem<u16>>::vx_rem_s(*a, b, r) } }
impl<'a> VxRem<&'a u16> for u16 { type O = u16; open spec fn vx_rem_s(a: u16, b: &'a u16, r: u16) -> bool { <u16 as VxRem<u16>>::vx_rem_s(a, *b, r) } }
impl VxRem<u32> for u32 { type O = u32; open spec fn vx_rem_s(a: u32, b: u32, r: u32) -> bool { b != 0 && r as int == a as int % b as int } }
impl<'a> VxRem<u32> for &'a u32 { type O = u32; open spec fn vx_rem_s(a: &'a u32, b: u32, r: u32) -> bool { <u32 as VxRem<u32>>::vx_rem_s(*a, b, r) } }
impl<'a> VxRem<&'a u32> for u32 { type O = u32; open spec fn vx_rem_s(a: u32, b: &'a u32, r: u32) -> bool { <u32 as VxRem<u32>>::vx_rem_s(a, *b, r) } }
impl VxRem<u64> for u64 { type O = u64; open spec fn vx_rem_s(a: u64, b: u64, r: u64) -> bool { b != 0 && r as int == a as int % b as int } }
impl<'a> VxRem<u64> for &'a u64 { type O = u64; open spec fn vx_rem_s(a: &'a u64, b: u64, r: u64) -> bool { <u64 as VxRem<u64>>::vx_rem_s(*a, b, r) } }
impl<'a> VxRem<&'a u64> for u64 { type O = u64; open spec fn vx_rem_s(a: u64, b: &'a u64, r: u64) -> bool { <u64 as VxRem<u64>>::vx_rem_s(a, *b, r) } }
impl VxRem<u128> for u128 { type O = u128; open spec fn vx_rem_s(a: u128, b: u128, r: u128) -> bool { b != 0 && r as int == a as int % b as int } }
impl<'a> VxRem<u128> for &'a u128 { type O = u128; open spec fn vx_rem_s(a: &'a u128, b: u128, r: u128) -> bool { <u128 as VxRem<u128>>::vx_rem_s(*a, b, r) } }
impl<'a> VxRem<&'a u128> for u128 { type O = u128; open spec fn vx_rem_s(a: u128, b: &'a u128, r: u128) -> bool { <u128 as VxRem<u128>>::vx_rem_s(a, *b, r) } }
impl VxRem<usize> for usize { type O = usize; open spec fn vx_rem_s(a: usize, b: usize, r: usize) -> bool { b != 0 && r as int == a as int % b as int } }
impl<'a> VxRem<usize> for &'a usize { type O = usize; open spec fn vx_rem_s(a: &'a usize, b: usize, r: usize) -> bool { <usize as VxRem<usize>>::vx_rem_s(*a, b, r) } }
impl<'a> VxRem<&'a usize> for usize { type O = usize; open spec fn vx_rem_s(a: usize, b: &'a usize, r: usize) -> bool { <usize as VxRem<usize>>::vx_rem_s(a, *b, r) } }
impl VxRem<i32> for i32 { type O = i32; open spec fn vx_rem_s(a: i32, b: i32, r: i32) -> bool { b != 0 && (a >= 0 && b > 0 ==> r as int == a as int % b as int) } }
impl<'a> VxRem<i32> for &'a i32 { type O = i32; open spec fn vx_rem_s(a: &'a i32, b: i32, r: i32) -> bool { <i32 as VxRem<i32>>::vx_rem_s(*a, b, r) } }
impl<'a> VxRem<&'a i32> for i32 { type O = i32; open spec fn vx_rem_s(a: i32, b: &'a i32, r: i32) -> bool { <i32 as VxRem<i32>>::vx_rem_s(a, *b, r) } }
impl VxRem<i64> for i64 { type O = i64; open spec fn vx_rem_s(a: i64, b: i64, r: i64) -> bool { b != 0 && (a >= 0 && b > 0 ==> r as int == a as int % b as int) } }
impl<'a> VxRem<i64> for &'a i64 { type O = i64; open spec fn vx_rem_s(a: &'a i64, b: i64, r: i64) -> bool { <i64 as VxRem<i64>>::vx_rem_s(*a, b, r) } }
impl<'a> VxRem<&'a i64> for i64 { type O = i64; open spec fn vx_rem_s(a: i64, b: &'a i64, r: i64) -> bool { <i64 as VxRem<i64>>::vx_rem_s(a, *b, r) } }
impl VxRem<i128> for i128 { type O = i128; open spec fn vx_rem_s(a: i128, b: i128, r: i128) -> bool { b != 0 && (a >= 0 && b > 0 ==> r as int == a as int % b as int) } }
impl<'a> VxRem<i128> for &'a i128 { type O = i128; open spec fn vx_rem_s(a: &'a i128, b: i128, r: i128) -> bool { <i128 as VxRem<i128>>::vx_rem_s(*a, b, r) } }
impl<'a> VxRem<&'a i128> for i128 { type O = i128; open spec fn vx_rem_s(a: i128, b: &'a i128, r: i128) -> bool { <i128 as VxRem<i128>>::vx_rem_s(a, *b, r) } }
// integer methods whose overflow is a value rather than a panic
pub trait VxInt: Sized { spec fn vx_iv(&self) -> int; spec fn vx_imin() -> int; spec fn vx_imax() -> int;
    fn vx_checked_add(self, o: Self) -> (r: Option<Self>) ensures r is Some == (Self::vx_imin() <= self.vx_iv() + o.vx_iv() <= Self::vx_imax()), r is Some ==> r->0.vx_iv() == self.vx_iv() + o.vx_iv();
    fn vx_checked_sub(self, o: Self) -> (r: Option<Self>) ensures r is Some == (Self::vx_imin() <= self.vx_iv() - o.vx_iv() <= Self::vx_imax()), r is Some ==> r->0.vx_iv() == self.vx_iv() - o.vx_iv();
    fn vx_checked_mul(self, o: Self) -> (r: Option<Self>) ensures r is Some == (Self::vx_imin() <= self.vx_iv() * o.vx_iv() <= Self::vx_imax()), r is Some ==> r->0.vx_iv() == self.vx_iv() * o.vx_iv();
    fn vx_checked_div(self, o: Self) -> (r: Option<Self>) ensures r is Some ==> o.vx_iv() != 0, r is Some && self.vx_iv() >= 0 && o.vx_iv() > 0 ==> r->0.vx_iv() == self.vx_iv() / o.vx_iv();
    fn vx_saturating_add(self, o: Self) -> (r: Self) ensures r.vx_iv() == if self.vx_iv() + o.vx_iv() > Self::vx_imax() { Self::vx_imax() } else if self.vx_iv() + o.vx_iv() < Self::vx_imin() { Self::vx_imin() } else { self.vx_iv() + o.vx_iv() };
    fn vx_saturating_sub(self, o: Self) -> (r: Self) ensures r.vx_iv() == if self.vx_iv() - o.vx_iv() > Self::vx_imax() { Self::vx_imax() } else if self.vx_iv() - o.vx_iv() < Self::vx_imin() { Self::vx_imin() } else { self.vx_iv() - o.vx_iv() };
    fn vx_min(self, o: Self) -> (r: Self) ensures r.vx_iv() == if self.vx_iv() <= o.vx_iv() { self.vx_iv() } else { o.vx_iv() };
    fn vx_max(self, o: Self) -> (r: Self) ensures r.vx_iv() == if self.vx_iv() >= o.vx_iv() { self.vx_iv() } else { o.vx_iv() };
}
impl VxInt for u8 { open spec fn vx_iv(&self) -> int { *self as int } open spec fn vx_imin() -> int { u8::MIN as int } open spec fn vx_imax() -> int { u8::MAX as int } #[verifier::external_body] fn vx_checked_add(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_sub(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_mul(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_div(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_saturating_add(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_saturating_sub(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_min(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_max(self, o: Self) -> (r: Self) { unimplemented!() }}
impl VxInt for u16 { open spec fn vx_iv(&self) -> int { *self as int } open spec fn vx_imin() -> int { u16::MIN as int } open spec fn vx_imax() -> int { u16::MAX as int } #[verifier::external_body] fn vx_checked_add(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_sub(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_mul(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_div(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_saturating_add(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_saturating_sub(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_min(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_max(self, o: Self) -> (r: Self) { unimplemented!() }}
impl VxInt for u32 { open spec fn vx_iv(&self) -> int { *self as int } open spec fn vx_imin() -> int { u32::MIN as int } open spec fn vx_imax() -> int { u32::MAX as int } #[verifier::external_body] fn vx_checked_add(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_sub(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_mul(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_div(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_saturating_add(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_saturating_sub(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_min(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_max(self, o: Self) -> (r: Self) { unimplemented!() }}
impl VxInt for u64 { open spec fn vx_iv(&self) -> int { *self as int } open spec fn vx_imin() -> int { u64::MIN as int } open spec fn vx_imax() -> int { u64::MAX as int } #[verifier::external_body] fn vx_checked_add(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_sub(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_mul(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_div(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_saturating_add(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_saturating_sub(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_min(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_max(self, o: Self) -> (r: Self) { unimplemented!() }}
impl VxInt for u128 { open spec fn vx_iv(&self) -> int { *self as int } open spec fn vx_imin() -> int { u128::MIN as int } open spec fn vx_imax() -> int { u128::MAX as int } #[verifier::external_body] fn vx_checked_add(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_sub(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_mul(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_div(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_saturating_add(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_saturating_sub(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_min(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_max(self, o: Self) -> (r: Self) { unimplemented!() }}
impl VxInt for usize { open spec fn vx_iv(&self) -> int { *self as int } open spec fn vx_imin() -> int { usize::MIN as int } open spec fn vx_imax() -> int { usize::MAX as int } #[verifier::external_body] fn vx_checked_add(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_sub(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_mul(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_div(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_saturating_add(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_saturating_sub(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_min(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_max(self, o: Self) -> (r: Self) { unimplemented!() }}
impl VxInt for i32 { open spec fn vx_iv(&self) -> int { *self as int } open spec fn vx_imin() -> int { i32::MIN as int } open spec fn vx_imax() -> int { i32::MAX as int } #[verifier::external_body] fn vx_checked_add(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_sub(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_mul(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_div(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_saturating_add(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_saturating_sub(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_min(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_max(self, o: Self) -> (r: Self) { unimplemented!() }}
impl VxInt for i64 { open spec fn vx_iv(&self) -> int { *self as int } open spec fn vx_imin() -> int { i64::MIN as int } open spec fn vx_imax() -> int { i64::MAX as int } #[verifier::external_body] fn vx_checked_add(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_sub(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_mul(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_div(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_saturating_add(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_saturating_sub(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_min(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_max(self, o: Self) -> (r: Self) { unimplemented!() }}
impl VxInt for i128 { open spec fn vx_iv(&self) -> int { *self as int } open spec fn vx_imin() -> int { i128::MIN as int } open spec fn vx_imax() -> int { i128::MAX as int } #[verifier::external_body] fn vx_checked_add(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_sub(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_mul(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_checked_div(self, o: Self) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_saturating_add(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_saturating_sub(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_min(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_max(self, o: Self) -> (r: Self) { unimplemented!() }}
impl<'a> VxAdd<&'a str> for String { type O = String; open spec fn vx_add_s(a: String, b: &'a str, r: String) -> bool { r@ == a@ + b@ } }
impl<'a> VxAdd<&'a String> for String { type O = String; open spec fn vx_add_s(a: String, b: &'a String, r: String) -> bool { r@ == a@ + b@ } }

// ---- equality and order
pub trait VxEq<B: ?Sized> { spec fn vx_eqs(&self, o: &B) -> bool; fn vx_eq(&self, o: &B) -> (r: bool) ensures r == self.vx_eqs(o); }
pub fn vx_eq<A: VxEq<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == a.vx_eqs(b) { a.vx_eq(b) }
impl VxEq<u8> for u8 { open spec fn vx_eqs(&self, o: &u8) -> bool { *self == *o } #[verifier::external_body] fn vx_eq(&self, o: &u8) -> (r: bool) { unimplemented!() } }
impl VxEq<u16> for u16 { open spec fn vx_eqs(&self, o: &u16) -> bool { *self == *o } #[verifier::external_body] fn vx_eq(&self, o: &u16) -> (r: bool) { unimplemented!() } }
impl VxEq<u32> for u32 { open spec fn vx_eqs(&self, o: &u32) -> bool { *self == *o } #[verifier::external_body] fn vx_eq(&self, o: &u32) -> (r: bool) { unimplemented!() } }
impl VxEq<u64> for u64 { open spec fn vx_eqs(&self, o: &u64) -> bool { *self == *o } #[verifier::external_body] fn vx_eq(&self, o: &u64) -> (r: bool) { unimplemented!() } }
impl VxEq<u128> for u128 { open spec fn vx_eqs(&self, o: &u128) -> bool { *self == *o } #[verifier::external_body] fn vx_eq(&self, o: &u128) -> (r: bool) { unimplemented!() } }
impl VxEq<usize> for usize { open spec fn vx_eqs(&self, o: &usize) -> bool { *self == *o } #[verifier::external_body] fn vx_eq(&self, o: &usize) -> (r: bool) { unimplemented!() } }
impl VxEq<i32> for i32 { open spec fn vx_eqs(&self, o: &i32) -> bool { *self == *o } #[verifier::external_body] fn vx_eq(&self, o: &i32) -> (r: bool) { unimplemented!() } }
impl VxEq<i64> for i64 { open spec fn vx_eqs(&self, o: &i64) -> bool { *self == *o } #[verifier::external_body] fn vx_eq(&self, o: &i64) -> (r: bool) { unimplemented!() } }
impl VxEq<i128> for i128 { open spec fn vx_eqs(&self, o: &i128) -> bool { *self == *o } #[verifier::external_body] fn vx_eq(&self, o: &i128) -> (r: bool) { unimplemented!() } }
impl VxEq<bool> for bool { open spec fn vx_eqs(&self, o: &bool) -> bool { *self == *o } #[verifier::external_body] fn vx_eq(&self, o: &bool) -> (r: bool) { unimplemented!() } }
impl VxEq<char> for char { open spec fn vx_eqs(&self, o: &char) -> bool { *self == *o } #[verifier::external_body] fn vx_eq(&self, o: &char) -> (r: bool) { unimplemented!() } }
impl VxEq<String> for String { open spec fn vx_eqs(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &String) -> (r: bool) { unimplemented!() } }
impl VxEq<str> for String { open spec fn vx_eqs(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl VxEq<String> for str { open spec fn vx_eqs(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &String) -> (r: bool) { unimplemented!() } }
impl VxEq<str> for str { open spec fn vx_eqs(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl<'a> VxEq<&'a str> for String { open spec fn vx_eqs(&self, o: &&'a str) -> bool { self@ == (*o)@ } #[verifier::external_body] fn vx_eq(&self, o: &&'a str) -> (r: bool) { unimplemented!() } }
impl<'a> VxEq<String> for &'a str { open spec fn vx_eqs(&self, o: &String) -> bool { (*self)@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &String) -> (r: bool) { unimplemented!() } }
impl<'a, 'b, A: VxEq<B> + ?Sized, B: ?Sized> VxEq<&'b B> for &'a A { open spec fn vx_eqs(&self, o: &&'b B) -> bool { (**self).vx_eqs(*o) } #[verifier::external_body] fn vx_eq(&self, o: &&'b B) -> (r: bool) { unimplemented!() } }
impl<A: VxEq<B>, B> VxEq<Option<B>> for Option<A> { open spec fn vx_eqs(&self, o: &Option<B>) -> bool { match (self, o) { (Some(x), Some(y)) => x.vx_eqs(y), (None, None) => true, _ => false } } #[verifier::external_body] fn vx_eq(&self, o: &Option<B>) -> (r: bool) { unimplemented!() } }
impl<A: VxEq<B>, B> VxEq<Vec<B>> for Vec<A> { open spec fn vx_eqs(&self, o: &Vec<B>) -> bool { self@.len() == o@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).vx_eqs(&o@[i]) } #[verifier::external_body] fn vx_eq(&self, o: &Vec<B>) -> (r: bool) { unimplemented!() } }
impl<const N: usize> VxEq<[u8; N]> for [u8; N] { open spec fn vx_eqs(&self, o: &[u8; N]) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &[u8; N]) -> (r: bool) { unimplemented!() } }
impl VxEq<[u8]> for Vec<u8> { open spec fn vx_eqs(&self, o: &[u8]) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &[u8]) -> (r: bool) { unimplemented!() } }
impl VxEq<[u8]> for [u8] { open spec fn vx_eqs(&self, o: &[u8]) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq(&self, o: &[u8]) -> (r: bool) { unimplemented!() } }
impl<A: VxEq<B>, B, C: VxEq<D>, D> VxEq<(B, D)> for (A, C) { open spec fn vx_eqs(&self, o: &(B, D)) -> bool { self.0.vx_eqs(&o.0) && self.1.vx_eqs(&o.1) } #[verifier::external_body] fn vx_eq(&self, o: &(B, D)) -> (r: bool) { unimplemented!() } }

pub trait VxOrd<B: ?Sized> { spec fn vx_lts(&self, o: &B) -> bool; spec fn vx_les(&self, o: &B) -> bool; }
#[verifier::external_body]
pub fn vx_lt<A: VxOrd<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == a.vx_lts(b) { unimplemented!() }
#[verifier::external_body]
pub fn vx_le<A: VxOrd<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == a.vx_les(b) { unimplemented!() }
#[verifier::external_body]
pub fn vx_gt<A: VxOrd<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == !a.vx_les(b) { unimplemented!() }
#[verifier::external_body]
pub fn vx_ge<A: VxOrd<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == !a.vx_lts(b) { unimplemented!() }
impl VxOrd<u8> for u8 { open spec fn vx_lts(&self, o: &u8) -> bool { *self < *o } open spec fn vx_les(&self, o: &u8) -> bool { *self <= *o } }
impl VxOrd<u16> for u16 { open spec fn vx_lts(&self, o: &u16) -> bool { *self < *o } open spec fn vx_les(&self, o: &u16) -> bool { *self <= *o } }
impl VxOrd<u32> for u32 { open spec fn vx_lts(&self, o: &u32) -> bool { *self < *o } open spec fn vx_les(&self, o: &u32) -> bool { *self <= *o } }
impl VxOrd<u64> for u64 { open spec fn vx_lts(&self, o: &u64) -> bool { *self < *o } open spec fn vx_les(&self, o: &u64) -> bool { *self <= *o } }
impl VxOrd<u128> for u128 { open spec fn vx_lts(&self, o: &u128) -> bool { *self < *o } open spec fn vx_les(&self, o: &u128) -> bool { *self <= *o } }
impl VxOrd<usize> for usize { open spec fn vx_lts(&self, o: &usize) -> bool { *self < *o } open spec fn vx_les(&self, o: &usize) -> bool { *self <= *o } }
impl VxOrd<i32> for i32 { open spec fn vx_lts(&self, o: &i32) -> bool { *self < *o } open spec fn vx_les(&self, o: &i32) -> bool { *self <= *o } }
impl VxOrd<i64> for i64 { open spec fn vx_lts(&self, o: &i64) -> bool { *self < *o } open spec fn vx_les(&self, o: &i64) -> bool { *self <= *o } }
impl VxOrd<i128> for i128 { open spec fn vx_lts(&self, o: &i128) -> bool { *self < *o } open spec fn vx_les(&self, o: &i128) -> bool { *self <= *o } }
impl<'a, 'b, A: VxOrd<B> + ?Sized, B: ?Sized> VxOrd<&'b B> for &'a A { open spec fn vx_lts(&self, o: &&'b B) -> bool { (**self).vx_lts(*o) } open spec fn vx_les(&self, o: &&'b B) -> bool { (**self).vx_les(*o) } }
// lexicographic order on strings, as an abstract total order
pub uninterp spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool;
pub open spec fn str_le(a: Seq<char>, b: Seq<char>) -> bool { a == b || str_lt(a, b) }
pub broadcast axiom fn ax_str_lt_total(a: Seq<char>, b: Seq<char>) ensures #[trigger] str_lt(a, b) ==> !str_lt(b, a) && a != b, !str_lt(a, b) ==> str_lt(b, a) || a == b;
pub axiom fn ax_str_lt_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures str_lt(a, b) && str_lt(b, c) ==> str_lt(a, c);
impl VxOrd<String> for String { open spec fn vx_lts(&self, o: &String) -> bool { str_lt(self@, o@) } open spec fn vx_les(&self, o: &String) -> bool { str_le(self@, o@) } }
impl VxOrd<str> for str { open spec fn vx_lts(&self, o: &str) -> bool { str_lt(self@, o@) } open spec fn vx_les(&self, o: &str) -> bool { str_le(self@, o@) } }
pub trait VxCmp<B: ?Sized> { fn vx_cmp(&self, o: &B) -> (r: core::cmp::Ordering) where Self: VxOrd<B>
   ensures r is Less == self.vx_lts(o), r is Greater == !self.vx_les(o); }
impl<A: ?Sized> VxCmp<A> for A { #[verifier::external_body] fn vx_cmp(&self, o: &A) -> (r: core::cmp::Ordering) where Self: VxOrd<A> { unimplemented!() } }

// ---- clone / default / conversions
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl VxClone for u8 { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for u16 { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for u32 { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for u64 { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for u128 { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for usize { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for i32 { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for i64 { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for i128 { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for bool { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for String { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for () { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl<T: VxClone> VxClone for Vec<T> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl<T: VxClone> VxClone for Option<T> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl<A: VxClone, B: VxClone> VxClone for (A, B) { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl<A: VxClone, B: VxClone, C: VxClone> VxClone for (A, B, C) { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl<'a, T: ?Sized> VxClone for &'a T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl<T: VxClone> VxClone for Box<T> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl<T: VxClone> VxClone for VxIter<T> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }

pub trait VxDefault: Sized { spec fn vx_is_default(r: Self) -> bool; fn vx_default() -> (r: Self) ensures Self::vx_is_default(r); }
impl VxDefault for u8 { open spec fn vx_is_default(r: Self) -> bool { r == 0 } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl VxDefault for u16 { open spec fn vx_is_default(r: Self) -> bool { r == 0 } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl VxDefault for u32 { open spec fn vx_is_default(r: Self) -> bool { r == 0 } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl VxDefault for u64 { open spec fn vx_is_default(r: Self) -> bool { r == 0 } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl VxDefault for u128 { open spec fn vx_is_default(r: Self) -> bool { r == 0 } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl VxDefault for usize { open spec fn vx_is_default(r: Self) -> bool { r == 0 } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl VxDefault for i32 { open spec fn vx_is_default(r: Self) -> bool { r == 0 } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl VxDefault for i64 { open spec fn vx_is_default(r: Self) -> bool { r == 0 } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl VxDefault for i128 { open spec fn vx_is_default(r: Self) -> bool { r == 0 } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl VxDefault for bool { open spec fn vx_is_default(r: Self) -> bool { !r } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl<'a> VxDefault for &'a str { open spec fn vx_is_default(r: Self) -> bool { r@ == Seq::<char>::empty() } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl VxDefault for String { open spec fn vx_is_default(r: Self) -> bool { r@ == Seq::<char>::empty() } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl<T> VxDefault for Vec<T> { open spec fn vx_is_default(r: Self) -> bool { r@ == Seq::<T>::empty() } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl<T> VxDefault for Option<T> { open spec fn vx_is_default(r: Self) -> bool { r is None } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl<A: VxDefault, B: VxDefault> VxDefault for (A, B) { open spec fn vx_is_default(r: Self) -> bool { A::vx_is_default(r.0) && B::vx_is_default(r.1) } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }

pub trait VxFrom<A>: Sized { spec fn vx_from_spec(a: A, r: Self) -> bool; fn vx_from(a: A) -> (r: Self) ensures Self::vx_from_spec(a, r); }
impl<T> VxFrom<T> for T { open spec fn vx_from_spec(a: T, r: T) -> bool { r == a } #[verifier::external_body] fn vx_from(a: T) -> (r: T) { unimplemented!() } }
pub trait VxInto<B>: Sized { spec fn vx_into_spec(self, r: B) -> bool; fn vx_into(self) -> (r: B) ensures self.vx_into_spec(r); }
impl<A, B: VxFrom<A>> VxInto<B> for A { open spec fn vx_into_spec(self, r: B) -> bool { B::vx_from_spec(self, r) } #[verifier::external_body] fn vx_into(self) -> (r: B) { unimplemented!() } }
impl<'a> VxFrom<&'a str> for String { open spec fn vx_from_spec(a: &'a str, r: String) -> bool { r@ == a@ } #[verifier::external_body] fn vx_from(a: &'a str) -> (r: String) { unimplemented!() } }
impl<'a> VxFrom<&'a String> for String { open spec fn vx_from_spec(a: &'a String, r: String) -> bool { r == *a } #[verifier::external_body] fn vx_from(a: &'a String) -> (r: String) { unimplemented!() } }
impl VxFrom<u8> for u32 { open spec fn vx_from_spec(a: u8, r: u32) -> bool { r as int == a as int } #[verifier::external_body] fn vx_from(a: u8) -> (r: u32) { unimplemented!() } }
impl VxFrom<u8> for u64 { open spec fn vx_from_spec(a: u8, r: u64) -> bool { r as int == a as int } #[verifier::external_body] fn vx_from(a: u8) -> (r: u64) { unimplemented!() } }
impl VxFrom<u8> for u128 { open spec fn vx_from_spec(a: u8, r: u128) -> bool { r as int == a as int } #[verifier::external_body] fn vx_from(a: u8) -> (r: u128) { unimplemented!() } }
impl VxFrom<u32> for u64 { open spec fn vx_from_spec(a: u32, r: u64) -> bool { r as int == a as int } #[verifier::external_body] fn vx_from(a: u32) -> (r: u64) { unimplemented!() } }
impl VxFrom<u32> for u128 { open spec fn vx_from_spec(a: u32, r: u128) -> bool { r as int == a as int } #[verifier::external_body] fn vx_from(a: u32) -> (r: u128) { unimplemented!() } }
impl VxFrom<u64> for u128 { open spec fn vx_from_spec(a: u64, r: u128) -> bool { r as int == a as int } #[verifier::external_body] fn vx_from(a: u64) -> (r: u128) { unimplemented!() } }
impl VxFrom<u32> for i64 { open spec fn vx_from_spec(a: u32, r: i64) -> bool { r as int == a as int } #[verifier::external_body] fn vx_from(a: u32) -> (r: i64) { unimplemented!() } }

pub trait VxDisplay { spec fn vx_disp(&self) -> Seq<char>; }
pub uninterp spec fn int_str(n: int) -> Seq<char>;
impl VxDisplay for str { open spec fn vx_disp(&self) -> Seq<char> { self@ } }
impl VxDisplay for String { open spec fn vx_disp(&self) -> Seq<char> { self@ } }
impl<'a, T: VxDisplay + ?Sized> VxDisplay for &'a T { open spec fn vx_disp(&self) -> Seq<char> { (**self).vx_disp() } }
// s is a decimal notation of n
pub uninterp spec fn parses_to(s: Seq<char>, n: int) -> bool;
pub broadcast axiom fn ax_parse_int(n: int, m: int) ensures #[trigger] parses_to(int_str(n), m) ==> m == n;
pub axiom fn ax_parse_unique(s: Seq<char>, n: int, m: int) ensures parses_to(s, n) && parses_to(s, m) ==> m == n;
pub trait VxFromStr: Sized { type Err; spec fn vx_fs(s: Seq<char>, r: Result<Self, Self::Err>) -> bool; }
pub trait VxParse { spec fn vx_ps(&self) -> Seq<char>; fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::Err>) ensures T::vx_fs(self.vx_ps(), r); }
impl VxParse for str { open spec fn vx_ps(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::Err>) { unimplemented!() } }
impl VxParse for String { open spec fn vx_ps(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::Err>) { unimplemented!() } }
impl VxFromStr for u8 { type Err = crate::vxstd::num::ParseIntError; open spec fn vx_fs(s: Seq<char>, r: Result<u8, crate::vxstd::num::ParseIntError>) -> bool { r is Ok ==> parses_to(s, r->Ok_0 as int) } }
impl VxFromStr for u16 { type Err = crate::vxstd::num::ParseIntError; open spec fn vx_fs(s: Seq<char>, r: Result<u16, crate::vxstd::num::ParseIntError>) -> bool { r is Ok ==> parses_to(s, r->Ok_0 as int) } }
impl VxFromStr for u32 { type Err = crate::vxstd::num::ParseIntError; open spec fn vx_fs(s: Seq<char>, r: Result<u32, crate::vxstd::num::ParseIntError>) -> bool { r is Ok ==> parses_to(s, r->Ok_0 as int) } }
impl VxFromStr for u64 { type Err = crate::vxstd::num::ParseIntError; open spec fn vx_fs(s: Seq<char>, r: Result<u64, crate::vxstd::num::ParseIntError>) -> bool { r is Ok ==> parses_to(s, r->Ok_0 as int) } }
impl VxFromStr for u128 { type Err = crate::vxstd::num::ParseIntError; open spec fn vx_fs(s: Seq<char>, r: Result<u128, crate::vxstd::num::ParseIntError>) -> bool { r is Ok ==> parses_to(s, r->Ok_0 as int) } }
impl VxFromStr for usize { type Err = crate::vxstd::num::ParseIntError; open spec fn vx_fs(s: Seq<char>, r: Result<usize, crate::vxstd::num::ParseIntError>) -> bool { r is Ok ==> parses_to(s, r->Ok_0 as int) } }
impl VxFromStr for i32 { type Err = crate::vxstd::num::ParseIntError; open spec fn vx_fs(s: Seq<char>, r: Result<i32, crate::vxstd::num::ParseIntError>) -> bool { r is Ok ==> parses_to(s, r->Ok_0 as int) } }
impl VxFromStr for i64 { type Err = crate::vxstd::num::ParseIntError; open spec fn vx_fs(s: Seq<char>, r: Result<i64, crate::vxstd::num::ParseIntError>) -> bool { r is Ok ==> parses_to(s, r->Ok_0 as int) } }
impl VxFromStr for i128 { type Err = crate::vxstd::num::ParseIntError; open spec fn vx_fs(s: Seq<char>, r: Result<i128, crate::vxstd::num::ParseIntError>) -> bool { r is Ok ==> parses_to(s, r->Ok_0 as int) } }
impl VxDisplay for u8 { open spec fn vx_disp(&self) -> Seq<char> { int_str(*self as int) } }
impl VxDisplay for u16 { open spec fn vx_disp(&self) -> Seq<char> { int_str(*self as int) } }
impl VxDisplay for u32 { open spec fn vx_disp(&self) -> Seq<char> { int_str(*self as int) } }
impl VxDisplay for u64 { open spec fn vx_disp(&self) -> Seq<char> { int_str(*self as int) } }
impl VxDisplay for u128 { open spec fn vx_disp(&self) -> Seq<char> { int_str(*self as int) } }
impl VxDisplay for usize { open spec fn vx_disp(&self) -> Seq<char> { int_str(*self as int) } }
impl VxDisplay for i32 { open spec fn vx_disp(&self) -> Seq<char> { int_str(*self as int) } }
impl VxDisplay for i64 { open spec fn vx_disp(&self) -> Seq<char> { int_str(*self as int) } }
impl VxDisplay for i128 { open spec fn vx_disp(&self) -> Seq<char> { int_str(*self as int) } }
pub trait VxToString: VxDisplay { fn vx_to_string(&self) -> (r: String) ensures r@ == self.vx_disp(); }
impl<T: VxDisplay + ?Sized> VxToString for T { #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
pub trait VxToOwned { fn vx_to_owned(&self) -> (r: String); }
#[verifier::external_body]
pub struct VxFmt { s: String }
impl VxFmt {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn lit(self, s: &str) -> (r: Self) ensures r@ == self@ + s@ { unimplemented!() }
    #[verifier::external_body] pub fn arg<T: VxDisplay + ?Sized>(self, t: &T) -> (r: Self) ensures r@ == self@ + t.vx_disp() { unimplemented!() }
    #[verifier::external_body] pub fn dbg<T: ?Sized>(self, t: &T) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn done(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}

// ---- bytes and strings
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub trait VxAsRef<T: ?Sized> { spec fn vx_ar(&self) -> Seq<u8>; }
impl VxAsRef<[u8]> for [u8] { open spec fn vx_ar(&self) -> Seq<u8> { self@ } }
impl VxAsRef<[u8]> for Vec<u8> { open spec fn vx_ar(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VxAsRef<[u8]> for [u8; N] { open spec fn vx_ar(&self) -> Seq<u8> { self@ } }
impl VxAsRef<[u8]> for str { open spec fn vx_ar(&self) -> Seq<u8> { utf8(self@) } }
impl VxAsRef<[u8]> for String { open spec fn vx_ar(&self) -> Seq<u8> { utf8(self@) } }
impl<'a, T: VxAsRef<[u8]> + ?Sized> VxAsRef<[u8]> for &'a T { open spec fn vx_ar(&self) -> Seq<u8> { (**self).vx_ar() } }
// s split at every c, and the parts put together again
pub open spec fn splitc(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![s] } else { let r = splitc(s.skip(1), c); if s[0] == c { seq![Seq::<char>::empty()] + r } else { r.update(0, seq![s[0]] + r[0]) } } }
pub open spec fn joinc(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { v[0] + sep + joinc(v.skip(1), sep) } }
pub trait VxSlice<T> { spec fn vx_sl(&self) -> Seq<T>; fn vx_as_slice<'a>(&'a self) -> (r: &'a [T]) ensures r@ == self.vx_sl(); }
impl<T> VxSlice<T> for Vec<T> { open spec fn vx_sl(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_as_slice<'a>(&'a self) -> (r: &'a [T]) { unimplemented!() } }
impl<T, const N: usize> VxSlice<T> for [T; N] { open spec fn vx_sl(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_as_slice<'a>(&'a self) -> (r: &'a [T]) { unimplemented!() } }
pub trait VxStr {
    spec fn vx_sv(&self) -> Seq<char>;
    fn vx_as_bytes<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == utf8(self.vx_sv());
    fn vx_split<'a>(&'a self, c: char) -> (r: VxIter<&'a str>) ensures r@.map_values(|x: &str| x@) == splitc(self.vx_sv(), c);
    fn vx_split_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) ensures
        r is None ==> !self.vx_sv().contains(c),
        r is Some ==> !(r->0).0@.contains(c) && self.vx_sv() == (r->0).0@ + seq![c] + (r->0).1@;
}
impl VxStr for str { open spec fn vx_sv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_bytes<'a>(&'a self) -> (r: &'a [u8]) { unimplemented!() } #[verifier::external_body] fn vx_split<'a>(&'a self, c: char) -> (r: VxIter<&'a str>) { unimplemented!() } #[verifier::external_body] fn vx_split_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() } }
impl VxStr for String { open spec fn vx_sv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_bytes<'a>(&'a self) -> (r: &'a [u8]) { unimplemented!() } #[verifier::external_body] fn vx_split<'a>(&'a self, c: char) -> (r: VxIter<&'a str>) { unimplemented!() } #[verifier::external_body] fn vx_split_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() } }
pub open spec fn disps<T: VxDisplay>(s: Seq<T>) -> Seq<Seq<char>> { s.map_values(|x: T| x.vx_disp()) }
pub trait VxJoin { spec fn vx_js(&self) -> Seq<Seq<char>>; fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joinc(self.vx_js(), sep@); }
impl<T: VxDisplay> VxJoin for [T] { open spec fn vx_js(&self) -> Seq<Seq<char>> { disps(self@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
impl<T: VxDisplay> VxJoin for Vec<T> { open spec fn vx_js(&self) -> Seq<Seq<char>> { disps(self@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
// sub-slices (panics when out of range)
pub trait VxRng<T> { spec fn vx_rs(&self) -> Seq<T>; }
impl<T> VxRng<T> for Vec<T> { open spec fn vx_rs(&self) -> Seq<T> { self@ } }
impl<T> VxRng<T> for [T] { open spec fn vx_rs(&self) -> Seq<T> { self@ } }
impl<T, const N: usize> VxRng<T> for [T; N] { open spec fn vx_rs(&self) -> Seq<T> { self@ } }
impl<'a, T, A: VxRng<T> + ?Sized> VxRng<T> for &'a A { open spec fn vx_rs(&self) -> Seq<T> { (**self).vx_rs() } }
#[verifier::external_body] pub fn vx_rng<'a, T, A: VxRng<T> + ?Sized>(a: &'a A, lo: usize, hi: usize) -> (r: &'a [T]) ensures lo <= hi <= a.vx_rs().len(), r@ == a.vx_rs().subrange(lo as int, hi as int) { unimplemented!() }
// byte strings in lexicographic order
pub open spec fn bytes_le(a: Seq<u8>, b: Seq<u8>) -> bool decreases a.len() { if a.len() == 0 { true } else if b.len() == 0 { false } else if a[0] != b[0] { a[0] < b[0] } else { bytes_le(a.skip(1), b.skip(1)) } }
pub trait VxPair32 { 
    spec fn vx_p(&self) -> Seq<[u8; 32]>;
    fn vx_sort_unstable(&mut self) ensures final(self).vx_p() == if bytes_le(old(self).vx_p()[0]@, old(self).vx_p()[1]@) { old(self).vx_p() } else { seq![old(self).vx_p()[1], old(self).vx_p()[0]] };
    fn vx_sort(&mut self) ensures final(self).vx_p() == if bytes_le(old(self).vx_p()[0]@, old(self).vx_p()[1]@) { old(self).vx_p() } else { seq![old(self).vx_p()[1], old(self).vx_p()[0]] };
    fn vx_concat(&self) -> (r: Vec<u8>) ensures r@ == self.vx_p()[0]@ + self.vx_p()[1]@;
}
impl VxPair32 for [[u8; 32]; 2] { open spec fn vx_p(&self) -> Seq<[u8; 32]> { self@ }
    #[verifier::external_body] fn vx_sort_unstable(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vx_sort(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vx_concat(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl<'a, const N: usize> VxTryInto<[u8; N]> for &'a [u8] { type E = VxTryErr; open spec fn vx_try_spec(a: &'a [u8], r: Result<[u8; N], VxTryErr>) -> bool { (r is Ok) == (a@.len() == N) && (r is Ok ==> r->Ok_0@ == a@) } #[verifier::external_body] fn vx_try_into(self) -> (r: Result<[u8; N], VxTryErr>) { unimplemented!() } }
impl<const N: usize> VxTryInto<[u8; N]> for Vec<u8> { type E = VxTryErr; open spec fn vx_try_spec(a: Vec<u8>, r: Result<[u8; N], VxTryErr>) -> bool { (r is Ok) == (a@.len() == N) && (r is Ok ==> r->Ok_0@ == a@) } #[verifier::external_body] fn vx_try_into(self) -> (r: Result<[u8; N], VxTryErr>) { unimplemented!() } }
#[verifier::external_body] pub struct VxTryErr { s: String }

// ---- Option / Result
pub trait VxOption<T>: Sized {
    spec fn vx_o(&self) -> Option<T>;
    fn vx_unwrap(self) -> (r: T) ensures self.vx_o() == Some(r);
    fn vx_expect(self, m: &str) -> (r: T) ensures self.vx_o() == Some(r);
    fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == match self.vx_o() { Some(x) => x, None => d };
    fn vx_unwrap_or_default(self) -> (r: T) where T: VxDefault ensures match self.vx_o() { Some(x) => r == x, None => T::vx_is_default(r) };
    fn vx_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> (r: T) requires self.vx_o() is None ==> call_requires(f, ()) ensures match self.vx_o() { Some(x) => r == x, None => call_ensures(f, (), r) };
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) requires self.vx_o() is Some ==> call_requires(f, (self.vx_o()->0,)) ensures match self.vx_o() { Some(x) => r is Some && call_ensures(f, (x,), r->0), None => r is None };
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) requires self.vx_o() is Some ==> call_requires(f, (self.vx_o()->0,)) ensures match self.vx_o() { Some(x) => call_ensures(f, (x,), r), None => r == d };
    fn vx_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>) requires self.vx_o() is Some ==> call_requires(f, (self.vx_o()->0,)) ensures match self.vx_o() { Some(x) => call_ensures(f, (x,), r), None => r is None };
    fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) requires self.vx_o() is Some ==> call_requires(f, (self.vx_o()->0,)) ensures match self.vx_o() { Some(x) => call_ensures(f, (x,), r), None => !r };
    fn vx_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>) requires self.vx_o() is Some ==> call_requires(f, (&(self.vx_o()->0),)) ensures match self.vx_o() { Some(x) => (r is Some ==> r == Some(x) && call_ensures(f, (&x,), true)) && (r is None ==> call_ensures(f, (&x,), false)), None => r is None };
    fn vx_ok_or<E>(self, e: E) -> (r: Result<T, E>) ensures match self.vx_o() { Some(x) => r == Ok::<T, E>(x), None => r == Err::<T, E>(e) };
    fn vx_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> (r: Result<T, E>) requires self.vx_o() is None ==> call_requires(f, ()) ensures match self.vx_o() { Some(x) => r == Ok::<T, E>(x), None => r is Err };
    fn vx_or(self, d: Option<T>) -> (r: Option<T>) ensures r == match self.vx_o() { Some(x) => Some(x), None => d };
    fn vx_as_ref(&self) -> (r: Option<&T>) ensures match self.vx_o() { Some(x) => r == Some(&x), None => r is None };
    fn vx_as_mut(&mut self) -> (r: Option<&mut T>)
        ensures match old(self).vx_o() { None => r is None && final(self).vx_o() is None, Some(x) => r is Some && *(r->0) == x && final(self).vx_o() == Some(*final(r->0)) };
    fn vx_cloned_opt(&self) -> (r: Option<T>) where T: VxClone ensures r == self.vx_o();
}
impl<T> VxOption<T> for Option<T> {
    open spec fn vx_o(&self) -> Option<T> { *self }
    #[verifier::external_body] fn vx_unwrap(self) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn vx_expect(self, m: &str) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn vx_unwrap_or(self, d: T) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: T) where T: VxDefault { unimplemented!() }
    #[verifier::external_body] fn vx_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { unimplemented!() }
    #[verifier::external_body] fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) { unimplemented!() }
    #[verifier::external_body] fn vx_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>) { unimplemented!() }
    #[verifier::external_body] fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_ok_or<E>(self, e: E) -> (r: Result<T, E>) { unimplemented!() }
    #[verifier::external_body] fn vx_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> (r: Result<T, E>) { unimplemented!() }
    #[verifier::external_body] fn vx_or(self, d: Option<T>) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_as_ref(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_as_mut(&mut self) -> (r: Option<&mut T>) { unimplemented!() }
    #[verifier::external_body] fn vx_cloned_opt(&self) -> (r: Option<T>) where T: VxClone { unimplemented!() }
}
pub trait VxOptTranspose<T, E>: Sized { spec fn vx_ot(&self) -> Option<Result<T, E>>; fn vx_transpose(self) -> (r: Result<Option<T>, E>) ensures match self.vx_ot() { None => r == Ok::<Option<T>, E>(None), Some(Ok(x)) => r == Ok::<Option<T>, E>(Some(x)), Some(Err(e)) => r == Err::<Option<T>, E>(e) }; }
impl<T, E> VxOptTranspose<T, E> for Option<Result<T, E>> { open spec fn vx_ot(&self) -> Option<Result<T, E>> { *self } #[verifier::external_body] fn vx_transpose(self) -> (r: Result<Option<T>, E>) { unimplemented!() } }
pub trait VxOptDeref { fn vx_as_deref<'a>(&'a self) -> (r: Option<&'a str>) ensures (r is Some) == (self.vx_os() is Some), r is Some ==> r->0@ == self.vx_os()->0@; spec fn vx_os(&self) -> Option<String>; }
impl VxOptDeref for Option<String> { open spec fn vx_os(&self) -> Option<String> { *self } #[verifier::external_body] fn vx_as_deref<'a>(&'a self) -> (r: Option<&'a str>) { unimplemented!() } }
pub trait VxOptCloned<T> { spec fn vx_oc(&self) -> Option<T>; fn vx_cloned(self) -> (r: Option<T>) ensures r == self.vx_oc(); fn vx_copied(self) -> (r: Option<T>) ensures r == self.vx_oc(); }
impl<'a, T: VxClone> VxOptCloned<T> for Option<&'a T> { open spec fn vx_oc(&self) -> Option<T> { match *self { Some(x) => Some(*x), None => None } } #[verifier::external_body] fn vx_cloned(self) -> (r: Option<T>) { unimplemented!() } #[verifier::external_body] fn vx_copied(self) -> (r: Option<T>) { unimplemented!() } }
pub trait VxResult<T, E>: Sized {
    spec fn vx_rr(&self) -> Result<T, E>;
    fn vx_unwrap(self) -> (r: T) ensures self.vx_rr() == Ok::<T, E>(r);
    fn vx_expect(self, m: &str) -> (r: T) ensures self.vx_rr() == Ok::<T, E>(r);
    fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == match self.vx_rr() { Ok(x) => x, Err(_) => d };
    fn vx_unwrap_or_default(self) -> (r: T) where T: VxDefault ensures match self.vx_rr() { Ok(x) => r == x, Err(_) => T::vx_is_default(r) };
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U, E>) requires self.vx_rr() is Ok ==> call_requires(f, (self.vx_rr()->Ok_0,)) ensures match self.vx_rr() { Ok(x) => r is Ok && call_ensures(f, (x,), r->Ok_0), Err(e) => r == Err::<U, E>(e) };
    fn vx_and_then<U, F: FnOnce(T) -> Result<U, E>>(self, f: F) -> (r: Result<U, E>) requires self.vx_rr() is Ok ==> call_requires(f, (self.vx_rr()->Ok_0,)) ensures match self.vx_rr() { Ok(x) => call_ensures(f, (x,), r), Err(e) => r == Err::<U, E>(e) };
    fn vx_map_err<G, F: FnOnce(E) -> G>(self, f: F) -> (r: Result<T, G>) requires self.vx_rr() is Err ==> call_requires(f, (self.vx_rr()->Err_0,)) ensures match self.vx_rr() { Ok(x) => r == Ok::<T, G>(x), Err(e) => r is Err };
    fn vx_ok(self) -> (r: Option<T>) ensures r == match self.vx_rr() { Ok(x) => Some(x), Err(_) => None };
}
impl<T, E> VxResult<T, E> for Result<T, E> {
    open spec fn vx_rr(&self) -> Result<T, E> { *self }
    #[verifier::external_body] fn vx_unwrap(self) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn vx_expect(self, m: &str) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn vx_unwrap_or(self, d: T) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: T) where T: VxDefault { unimplemented!() }
    #[verifier::external_body] fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U, E>) { unimplemented!() }
    #[verifier::external_body] fn vx_and_then<U, F: FnOnce(T) -> Result<U, E>>(self, f: F) -> (r: Result<U, E>) { unimplemented!() }
    #[verifier::external_body] fn vx_map_err<G, F: FnOnce(E) -> G>(self, f: F) -> (r: Result<T, G>) { unimplemented!() }
    #[verifier::external_body] fn vx_ok(self) -> (r: Option<T>) { unimplemented!() }
}

// ---- iterators: an iterator over already computed values
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VxIter<T> { x: Vec<T> }
pub open spec fn vx_flat<T>(s: Seq<Option<T>>) -> Seq<T> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let r = vx_flat(s.drop_last()); match s.last() { Some(x) => r.push(x), None => r } } }
// r is a subsequence of s: kept are exactly the indices with keep(i)
pub open spec fn vx_kept<T>(s: Seq<T>, keep: Seq<bool>) -> Seq<T> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let r = vx_kept(s.drop_last(), keep.drop_last()); if keep.last() { r.push(s.last()) } else { r } } }
impl<T> VxIter<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn vx_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn vx_at(&self, i: usize) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn vx_map<U, F: FnMut(T) -> U>(self, f: F) -> (r: VxIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), r@[i]) { unimplemented!() }
    #[verifier::external_body] pub fn vx_filter<F: FnMut(&T) -> bool>(self, f: F) -> (r: VxIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&(#[trigger] self@[i]),)),
        ensures exists|keep: Seq<bool>| keep.len() == self@.len() && r@ == #[trigger] vx_kept(self@, keep) && forall|i: int| #![trigger self@[i]] #![trigger keep[i]] 0 <= i < self@.len() ==> call_ensures(f, (&self@[i],), keep[i]) { unimplemented!() }
    #[verifier::external_body] pub fn vx_position<F: FnMut(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures match r { Some(i) => i < self@.len() && call_ensures(f, (self@[i as int],), true) && forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] self@[j],), false),
            None => forall|j: int| 0 <= j < self@.len() ==> call_ensures(f, (#[trigger] self@[j],), false) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_find<F: FnMut(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&(#[trigger] self@[i]),)),
        ensures match r { Some(x) => exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == x && call_ensures(f, (&self@[i],), true) && forall|j: int| 0 <= j < i ==> call_ensures(f, (&(#[trigger] self@[j]),), false),
            None => forall|j: int| 0 <= j < self@.len() ==> call_ensures(f, (&(#[trigger] self@[j]),), false) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_all<F: FnMut(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), true), !r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), false) { unimplemented!() }
    #[verifier::external_body] pub fn vx_any<F: FnMut(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures !r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), false), r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), true) { unimplemented!() }
    #[verifier::external_body] pub fn vx_chain<S: VxSrc<VxItem = T>>(self, o: S) -> (r: VxIter<T>) ensures r@ == self@ + o.vx_seq() { unimplemented!() }
    #[verifier::external_body] pub fn vx_enumerate(self) -> (r: VxIter<(usize, T)>) ensures self@.len() <= usize::MAX, r@.len() == self@.len(), forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < self@.len() ==> r@[i] == (i as usize, self@[i]) { unimplemented!() }
    #[verifier::external_body] pub fn vx_zip<S: VxSrc>(self, o: S) -> (r: VxIter<(T, S::VxItem)>) ensures r@.len() == if self@.len() <= o.vx_seq().len() { self@.len() } else { o.vx_seq().len() }, forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i] == (self@[i], o.vx_seq()[i]) { unimplemented!() }
    #[verifier::external_body] pub fn vx_rev(self) -> (r: VxIter<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body] pub fn vx_take(self, n: usize) -> (r: VxIter<T>) ensures r@ == self@.take(if n <= self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
    #[verifier::external_body] pub fn vx_skip(self, n: usize) -> (r: VxIter<T>) ensures r@ == self@.skip(if n <= self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
    #[verifier::external_body] pub fn vx_fold<B, F: FnMut(B, T) -> B>(self, b: B, f: F) -> (r: B)
        requires forall|x: B, i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (x, self@[i])),
        ensures exists|acc: Seq<B>| #[trigger] acc.len() == self@.len() + 1 && acc[0] == b && acc.last() == r && forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> call_ensures(f, (acc[i], self@[i]), acc[i + 1]) { unimplemented!() }
    #[verifier::external_body] pub fn vx_try_fold<B, E, F: FnMut(B, T) -> Result<B, E>>(self, b: B, f: F) -> (r: Result<B, E>)
        requires forall|x: B, i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (x, self@[i])),
        ensures r is Ok ==> exists|acc: Seq<B>| #[trigger] acc.len() == self@.len() + 1 && acc[0] == b && acc.last() == r->Ok_0 && forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> call_ensures(f, (acc[i], self@[i]), Ok::<B, E>(acc[i + 1])),
            r is Err ==> exists|x: B, i: int| #![trigger call_ensures(f, (x, self@[i]), Err::<B, E>(r->Err_0))] 0 <= i < self@.len() && call_ensures(f, (x, self@[i]), Err::<B, E>(r->Err_0)) { unimplemented!() }
    #[verifier::external_body] pub fn vx_collect<C: VxCollect<T>>(self) -> (r: C) ensures C::collects(self@, r) { unimplemented!() }
    #[verifier::external_body] pub fn vx_sum<S: VxSum<T>>(self) -> (r: S) ensures S::vx_sums(self@, r) { unimplemented!() }
    #[verifier::external_body] pub fn vx_count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn vx_next(&mut self) -> (r: Option<T>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body] pub fn vx_last(self) -> (r: Option<T>) ensures r == if self@.len() == 0 { None } else { Some(self@.last()) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_nth(self, n: usize) -> (r: Option<T>) ensures r == if n < self@.len() { Some(self@[n as int]) } else { None } { unimplemented!() }
    #[verifier::external_body] pub fn vx_filter_map<U, F: FnMut(T) -> Option<U>>(self, f: F) -> (r: VxIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures exists|m: Seq<Option<U>>| m.len() == self@.len() && r@ == #[trigger] vx_flat(m) && forall|i: int| #![trigger self@[i]] #![trigger m[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), m[i]) { unimplemented!() }
    #[verifier::external_body] pub fn vx_flat_map<S: VxSrc, F: FnMut(T) -> S>(self, f: F) -> (r: VxIter<S::VxItem>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures exists|m: Seq<S>| m.len() == self@.len() && r@ == #[trigger] vx_join(m) && forall|i: int| #![trigger self@[i]] #![trigger m[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), m[i]) { unimplemented!() }
}
pub open spec fn vx_join<S: VxSrc>(m: Seq<S>) -> Seq<S::VxItem> decreases m.len() { if m.len() == 0 { Seq::empty() } else { vx_join(m.drop_last()) + m.last().vx_seq() } }
impl<A, B> VxIter<(A, B)> {
    #[verifier::external_body] pub fn vx_unzip<CA: VxCollect<A>, CB: VxCollect<B>>(self) -> (r: (CA, CB)) ensures CA::collects(Seq::new(self@.len(), |i: int| self@[i].0), r.0), CB::collects(Seq::new(self@.len(), |i: int| self@[i].1), r.1) { unimplemented!() }
}
pub trait VxFlatten<T>: Sized { spec fn vx_fl(&self) -> Seq<T>; fn vx_flatten(self) -> (r: VxIter<T>) ensures r@ == self.vx_fl(); }
impl<T> VxFlatten<T> for VxIter<Option<T>> { open spec fn vx_fl(&self) -> Seq<T> { vx_flat(self@) } #[verifier::external_body] fn vx_flatten(self) -> (r: VxIter<T>) { unimplemented!() } }
impl<T> VxFlatten<T> for VxIter<Vec<T>> { open spec fn vx_fl(&self) -> Seq<T> { vx_join(self@) } #[verifier::external_body] fn vx_flatten(self) -> (r: VxIter<T>) { unimplemented!() } }
pub trait VxIterCloned<T>: Sized { spec fn vx_ics(&self) -> Seq<T>; fn vx_cloned(self) -> (r: VxIter<T>) ensures r@ == self.vx_ics(); fn vx_copied(self) -> (r: VxIter<T>) ensures r@ == self.vx_ics(); }
impl<'a, T> VxIterCloned<T> for VxIter<&'a T> { open spec fn vx_ics(&self) -> Seq<T> { Seq::new(self@.len(), |i: int| *self@[i]) } #[verifier::external_body] fn vx_cloned(self) -> (r: VxIter<T>) { unimplemented!() } #[verifier::external_body] fn vx_copied(self) -> (r: VxIter<T>) { unimplemented!() } }

pub trait VxTryInto<T>: Sized { type E; spec fn vx_try_spec(a: Self, r: Result<T, Self::E>) -> bool; fn vx_try_into(self) -> (r: Result<T, Self::E>) ensures Self::vx_try_spec(self, r); }
pub trait VxSum<T>: Sized { spec fn vx_sums(s: Seq<T>, r: Self) -> bool; }
pub trait VxCollect<T>: Sized { spec fn collects(s: Seq<T>, r: Self) -> bool; }
impl<T> VxCollect<T> for Vec<T> { open spec fn collects(s: Seq<T>, r: Self) -> bool { r@ == s } }
impl<T, E, C: VxCollect<T>> VxCollect<Result<T, E>> for Result<C, E> { open spec fn collects(s: Seq<Result<T, E>>, r: Self) -> bool {
    match r { Ok(v) => (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok) && C::collects(Seq::new(s.len(), |i: int| s[i]->Ok_0), v),
        Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<T, E>(e) } } }
impl<T, C: VxCollect<T>> VxCollect<Option<T>> for Option<C> { open spec fn collects(s: Seq<Option<T>>, r: Self) -> bool {
    match r { Some(v) => (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some) && C::collects(Seq::new(s.len(), |i: int| s[i]->0), v),
        None => exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is None } } }
pub trait VxSrc: Sized { type VxItem; spec fn vx_seq(&self) -> Seq<Self::VxItem>; fn vx_into_iter(self) -> (r: VxIter<Self::VxItem>) ensures r@ == self.vx_seq(); }
impl<T> VxSrc for VxIter<T> { type VxItem = T; open spec fn vx_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() } }
impl<T> VxSrc for Vec<T> { type VxItem = T; open spec fn vx_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() } }
impl<T, const N: usize> VxSrc for [T; N] { type VxItem = T; open spec fn vx_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() } }
impl<'a, T> VxSrc for &'a Vec<T> { type VxItem = &'a T; open spec fn vx_seq(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() } }
impl<'a, T> VxSrc for &'a [T] { type VxItem = &'a T; open spec fn vx_seq(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() } }
impl<T> VxSrc for Option<T> { type VxItem = T; open spec fn vx_seq(&self) -> Seq<T> { match *self { Some(x) => seq![x], None => Seq::empty() } } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() } }
impl VxSrc for core::ops::Range<u32> { type VxItem = u32; open spec fn vx_seq(&self) -> Seq<u32> { Seq::new(if self.end >= self.start { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as u32) } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<u32>) { unimplemented!() } }
impl VxSrc for core::ops::Range<u64> { type VxItem = u64; open spec fn vx_seq(&self) -> Seq<u64> { Seq::new(if self.end >= self.start { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as u64) } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<u64>) { unimplemented!() } }
impl VxSrc for core::ops::Range<usize> { type VxItem = usize; open spec fn vx_seq(&self) -> Seq<usize> { Seq::new(if self.end >= self.start { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as usize) } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<usize>) { unimplemented!() } }

pub trait VxRef<T> { spec fn vx_rseq(&self) -> Seq<T>;
    fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>) ensures r@.len() == self.vx_rseq().len(), forall|i: int| #![trigger r@[i]] #![trigger self.vx_rseq()[i]] 0 <= i < r@.len() ==> *(r@[i]) == self.vx_rseq()[i];
    fn vx_first<'a>(&'a self) -> (r: Option<&'a T>) ensures self.vx_rseq().len() == 0 ==> r is None, self.vx_rseq().len() > 0 ==> r is Some && *(r->0) == self.vx_rseq()[0];
    fn vx_last<'a>(&'a self) -> (r: Option<&'a T>) ensures self.vx_rseq().len() == 0 ==> r is None, self.vx_rseq().len() > 0 ==> r is Some && *(r->0) == self.vx_rseq().last();
    fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vx_rseq();
}
impl<T> VxRef<T> for Vec<T> { open spec fn vx_rseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_first<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_last<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T> VxRef<T> for [T] { open spec fn vx_rseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_first<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_last<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
pub trait VxVecMut<T> {
    spec fn vx_vm(&self) -> Seq<T>;
    fn vx_get_mut<'a>(&'a mut self, i: usize) -> (r: Option<&'a mut T>)
        ensures old(self).vx_vm().len() <= i ==> r is None && final(self).vx_vm() == old(self).vx_vm(),
            old(self).vx_vm().len() > i ==> r is Some && *(r->0) == old(self).vx_vm()[i as int] && final(self).vx_vm() == old(self).vx_vm().update(i as int, *final(r->0));
    fn vx_retain<F: FnMut(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).vx_vm().len() ==> call_requires(f, (&(#[trigger] old(self).vx_vm()[i]),)),
        ensures exists|keep: Seq<bool>| keep.len() == old(self).vx_vm().len() && final(self).vx_vm() == #[trigger] vx_kept(old(self).vx_vm(), keep) && forall|i: int| #![trigger old(self).vx_vm()[i]] #![trigger keep[i]] 0 <= i < old(self).vx_vm().len() ==> call_ensures(f, (&old(self).vx_vm()[i],), keep[i]);
    fn vx_sort_by<F: FnMut(&T, &T) -> core::cmp::Ordering>(&mut self, f: F)
        requires forall|a: &T, b: &T| #[trigger] call_requires(f, (a, b)),
        ensures final(self).vx_vm().to_multiset() == old(self).vx_vm().to_multiset(), final(self).vx_vm().len() == old(self).vx_vm().len(), vx_perm(old(self).vx_vm(), final(self).vx_vm()), forall|i: int, j: int| 0 <= i < j < final(self).vx_vm().len() ==> vx_cmp_le(f, #[trigger] final(self).vx_vm()[i], #[trigger] final(self).vx_vm()[j]);
    fn vx_reverse(&mut self) ensures final(self).vx_vm() == old(self).vx_vm().reverse();
    fn vx_sort(&mut self) where T: VxOrd<T> ensures forall|i: int, j: int| #![trigger final(self).vx_vm()[i], final(self).vx_vm()[j]] 0 <= i < j < final(self).vx_vm().len() ==> final(self).vx_vm()[i].vx_les(&final(self).vx_vm()[j]), final(self).vx_vm().to_multiset() == old(self).vx_vm().to_multiset(), final(self).vx_vm().len() == old(self).vx_vm().len(), vx_perm(old(self).vx_vm(), final(self).vx_vm());
    fn vx_extend<S: VxSrc<VxItem = T>>(&mut self, s: S) ensures final(self).vx_vm() == old(self).vx_vm() + s.vx_seq();
}
// a comparison function may put a before b
pub open spec fn vx_cmp_le<T, F: FnMut(&T, &T) -> core::cmp::Ordering>(f: F, a: T, b: T) -> bool { exists|o: core::cmp::Ordering| #[trigger] call_ensures(f, (&a, &b), o) && !(o is Greater) }
// b is a permutation of a
pub open spec fn vx_perm<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && exists|p: Seq<int>| #[trigger] vx_perm_by(a, b, p) }
pub open spec fn vx_perm_by<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>) -> bool { p.len() == a.len() && b.len() == a.len() && (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < p.len()) && (forall|i: int, j: int| 0 <= i < j < p.len() ==> p[i] != p[j]) && (forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[p[i]]) }
impl<T> VxVecMut<T> for Vec<T> { open spec fn vx_vm(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_get_mut<'a>(&'a mut self, i: usize) -> (r: Option<&'a mut T>) { unimplemented!() }
    #[verifier::external_body] fn vx_retain<F: FnMut(&T) -> bool>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body] fn vx_sort_by<F: FnMut(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body] fn vx_sort(&mut self) where T: VxOrd<T> { unimplemented!() }
    #[verifier::external_body] fn vx_reverse(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vx_extend<S: VxSrc<VxItem = T>>(&mut self, s: S) { unimplemented!() } }

// ---- further parts of std, for code that changes
pub uninterp spec fn str_fn(k: int, s: Seq<char>) -> Seq<char>;
pub uninterp spec fn str_fn2(k: int, s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub uninterp spec fn str_rel(k: int, s: Seq<char>, a: Seq<char>) -> bool;
pub open spec fn str_has(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) =~= p }
pub open spec fn str_pre(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) =~= p }
pub open spec fn str_suf(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) =~= p }
pub trait VxPat { spec fn vx_pat(&self) -> Seq<char>; }
impl VxPat for char { open spec fn vx_pat(&self) -> Seq<char> { seq![*self] } }
impl VxPat for str { open spec fn vx_pat(&self) -> Seq<char> { self@ } }
impl VxPat for String { open spec fn vx_pat(&self) -> Seq<char> { self@ } }
impl<'a, P: VxPat + ?Sized> VxPat for &'a P { open spec fn vx_pat(&self) -> Seq<char> { (**self).vx_pat() } }
pub trait VxStrMore {
    spec fn vx_sw(&self) -> Seq<char>;
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == str_pre(self.vx_sw(), p.vx_pat());
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == str_suf(self.vx_sw(), p.vx_pat());
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) ensures r == str_has(self.vx_sw(), p.vx_pat());
    fn vx_to_lowercase(&self) -> (r: String) ensures r@ == str_fn(1, self.vx_sw());
    fn vx_to_uppercase(&self) -> (r: String) ensures r@ == str_fn(2, self.vx_sw());
    fn vx_to_ascii_lowercase(&self) -> (r: String) ensures r@ == str_fn(3, self.vx_sw());
    fn vx_to_ascii_uppercase(&self) -> (r: String) ensures r@ == str_fn(4, self.vx_sw());
    fn vx_trim<'a>(&'a self) -> (r: &'a str) ensures r@ == str_fn(5, self.vx_sw());
    fn vx_trim_start<'a>(&'a self) -> (r: &'a str) ensures r@ == str_fn(6, self.vx_sw());
    fn vx_trim_end<'a>(&'a self) -> (r: &'a str) ensures r@ == str_fn(7, self.vx_sw());
    fn vx_trim_start_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str) ensures r@ == str_fn2(8, self.vx_sw(), p.vx_pat(), Seq::empty());
    fn vx_trim_end_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str) ensures r@ == str_fn2(9, self.vx_sw(), p.vx_pat(), Seq::empty());
    fn vx_strip_prefix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>) ensures r is Some == str_pre(self.vx_sw(), p.vx_pat()), r is Some ==> r->0@ == self.vx_sw().skip(p.vx_pat().len() as int);
    fn vx_strip_suffix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>) ensures r is Some == str_suf(self.vx_sw(), p.vx_pat()), r is Some ==> r->0@ == self.vx_sw().take(self.vx_sw().len() - p.vx_pat().len());
    fn vx_replace<P: VxPat>(&self, p: P, to: &str) -> (r: String) ensures r@ == str_fn2(10, self.vx_sw(), p.vx_pat(), to@);
    fn vx_rsplit_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) ensures r is None ==> !self.vx_sw().contains(c), r is Some ==> !(r->0).1@.contains(c) && self.vx_sw() == (r->0).0@ + seq![c] + (r->0).1@;
    fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (str_fn(3, self.vx_sw()) == str_fn(3, o@));
    fn vx_chars(&self) -> (r: VxIter<char>) ensures r@ == self.vx_sw();
    fn vx_bytes(&self) -> (r: VxIter<u8>) ensures r@ == utf8(self.vx_sw());
    fn vx_repeat(&self, n: usize) -> (r: String) ensures n == 1 ==> r@ == self.vx_sw(), n == 0 ==> r@ == Seq::<char>::empty();
}
impl VxStrMore for str { open spec fn vx_sw(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vx_trim<'a>(&'a self) -> (r: &'a str) { unimplemented!() } #[verifier::external_body] fn vx_trim_start<'a>(&'a self) -> (r: &'a str) { unimplemented!() } #[verifier::external_body] fn vx_trim_end<'a>(&'a self) -> (r: &'a str) { unimplemented!() } #[verifier::external_body] fn vx_trim_start_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() } #[verifier::external_body] fn vx_trim_end_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() } #[verifier::external_body] fn vx_strip_prefix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() } #[verifier::external_body] fn vx_strip_suffix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() } #[verifier::external_body] fn vx_replace<P: VxPat>(&self, p: P, to: &str) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vx_rsplit_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() } #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn vx_chars(&self) -> (r: VxIter<char>) { unimplemented!() } #[verifier::external_body] fn vx_bytes(&self) -> (r: VxIter<u8>) { unimplemented!() } #[verifier::external_body] fn vx_repeat(&self, n: usize) -> (r: String) { unimplemented!() } }
impl VxStrMore for String { open spec fn vx_sw(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vx_trim<'a>(&'a self) -> (r: &'a str) { unimplemented!() } #[verifier::external_body] fn vx_trim_start<'a>(&'a self) -> (r: &'a str) { unimplemented!() } #[verifier::external_body] fn vx_trim_end<'a>(&'a self) -> (r: &'a str) { unimplemented!() } #[verifier::external_body] fn vx_trim_start_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() } #[verifier::external_body] fn vx_trim_end_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str) { unimplemented!() } #[verifier::external_body] fn vx_strip_prefix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() } #[verifier::external_body] fn vx_strip_suffix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>) { unimplemented!() } #[verifier::external_body] fn vx_replace<P: VxPat>(&self, p: P, to: &str) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vx_rsplit_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() } #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn vx_chars(&self) -> (r: VxIter<char>) { unimplemented!() } #[verifier::external_body] fn vx_bytes(&self) -> (r: VxIter<u8>) { unimplemented!() } #[verifier::external_body] fn vx_repeat(&self, n: usize) -> (r: String) { unimplemented!() } }

impl VxCollect<char> for String { open spec fn collects(s: Seq<char>, r: Self) -> bool { r@ == s } }
impl VxOrd<char> for char { open spec fn vx_lts(&self, o: &char) -> bool { *self < *o } open spec fn vx_les(&self, o: &char) -> bool { *self <= *o } }
impl VxOrd<bool> for bool { open spec fn vx_lts(&self, o: &bool) -> bool { !*self && *o } open spec fn vx_les(&self, o: &bool) -> bool { !*self || *o } }

pub open spec fn vx_in<T: VxEq<T>>(s: Seq<T>, x: T) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vx_eqs(&x) }
pub open spec fn vx_dedupd<T: VxEq<T>>(s: Seq<T>) -> Seq<T> decreases s.len() { if s.len() <= 1 { s } else { let r = vx_dedupd(s.drop_last()); if s[s.len() - 2].vx_eqs(&s.last()) { r } else { r.push(s.last()) } } }
pub open spec fn vx_key_le<T, K: VxOrd<K>, F: FnMut(&T) -> K>(f: F, a: T, b: T) -> bool { exists|x: K, y: K| #[trigger] call_ensures(f, (&a,), x) && #[trigger] call_ensures(f, (&b,), y) && x.vx_les(&y) }
pub trait VxSeqMore<T> {
    spec fn vx_sq(&self) -> Seq<T>;
    fn vx_contains(&self, x: &T) -> (r: bool) where T: VxEq<T> ensures r == vx_in(self.vx_sq(), *x);
    fn vx_windows<'a>(&'a self, n: usize) -> (r: VxIter<&'a [T]>) ensures n > 0, r@.len() == if self.vx_sq().len() >= n { (self.vx_sq().len() - n + 1) as nat } else { 0 }, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.vx_sq().subrange(i, i + n);
    fn vx_chunks<'a>(&'a self, n: usize) -> (r: VxIter<&'a [T]>) ensures n > 0, r@.len() == (self.vx_sq().len() + n - 1) / n as int, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.vx_sq().subrange(i * n, if (i + 1) * n <= self.vx_sq().len() { (i + 1) * n } else { self.vx_sq().len() as int });
    fn vx_binary_search(&self, x: &T) -> (r: Result<usize, usize>) where T: VxEq<T> ensures r is Ok ==> r->Ok_0 < self.vx_sq().len() && self.vx_sq()[r->Ok_0 as int].vx_eqs(x), r is Err ==> r->Err_0 <= self.vx_sq().len();
}
pub trait VxSeqMoreMut<T> {
    spec fn vx_sm(&self) -> Seq<T>;
    fn vx_swap(&mut self, i: usize, j: usize) ensures i < old(self).vx_sm().len(), j < old(self).vx_sm().len(), final(self).vx_sm() == old(self).vx_sm().update(i as int, old(self).vx_sm()[j as int]).update(j as int, old(self).vx_sm()[i as int]);
    fn vx_sort_by_key<K: VxOrd<K>, F: FnMut(&T) -> K>(&mut self, f: F)
        requires forall|a: &T| #[trigger] call_requires(f, (a,)),
        ensures final(self).vx_sm().to_multiset() == old(self).vx_sm().to_multiset(), final(self).vx_sm().len() == old(self).vx_sm().len(), vx_perm(old(self).vx_sm(), final(self).vx_sm()), forall|i: int, j: int| 0 <= i < j < final(self).vx_sm().len() ==> vx_key_le(f, #[trigger] final(self).vx_sm()[i], #[trigger] final(self).vx_sm()[j]);
}
pub trait VxVecMore<T> {
    spec fn vx_vq(&self) -> Seq<T>;
    fn vx_dedup(&mut self) where T: VxEq<T> ensures final(self).vx_vq() == vx_dedupd(old(self).vx_vq());
    fn vx_sort_unstable(&mut self) where T: VxOrd<T> ensures forall|i: int, j: int| #![trigger final(self).vx_vq()[i], final(self).vx_vq()[j]] 0 <= i < j < final(self).vx_vq().len() ==> final(self).vx_vq()[i].vx_les(&final(self).vx_vq()[j]), final(self).vx_vq().to_multiset() == old(self).vx_vq().to_multiset(), final(self).vx_vq().len() == old(self).vx_vq().len(), vx_perm(old(self).vx_vq(), final(self).vx_vq());
    fn vx_swap_remove(&mut self, i: usize) -> (r: T) ensures i < old(self).vx_vq().len(), r == old(self).vx_vq()[i as int], final(self).vx_vq() == old(self).vx_vq().update(i as int, old(self).vx_vq().last()).drop_last();
}
impl<T> VxSeqMore<T> for Vec<T> { open spec fn vx_sq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_contains(&self, x: &T) -> (r: bool) where T: VxEq<T> { unimplemented!() } #[verifier::external_body] fn vx_windows<'a>(&'a self, n: usize) -> (r: VxIter<&'a [T]>) { unimplemented!() } #[verifier::external_body] fn vx_chunks<'a>(&'a self, n: usize) -> (r: VxIter<&'a [T]>) { unimplemented!() } #[verifier::external_body] fn vx_binary_search(&self, x: &T) -> (r: Result<usize, usize>) where T: VxEq<T> { unimplemented!() } }
impl<T> VxSeqMoreMut<T> for Vec<T> { open spec fn vx_sm(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_swap(&mut self, i: usize, j: usize) { unimplemented!() } #[verifier::external_body] fn vx_sort_by_key<K: VxOrd<K>, F: FnMut(&T) -> K>(&mut self, f: F) { unimplemented!() } }
impl<T> VxSeqMore<T> for [T] { open spec fn vx_sq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_contains(&self, x: &T) -> (r: bool) where T: VxEq<T> { unimplemented!() } #[verifier::external_body] fn vx_windows<'a>(&'a self, n: usize) -> (r: VxIter<&'a [T]>) { unimplemented!() } #[verifier::external_body] fn vx_chunks<'a>(&'a self, n: usize) -> (r: VxIter<&'a [T]>) { unimplemented!() } #[verifier::external_body] fn vx_binary_search(&self, x: &T) -> (r: Result<usize, usize>) where T: VxEq<T> { unimplemented!() } }
impl<T> VxSeqMoreMut<T> for [T] { open spec fn vx_sm(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_swap(&mut self, i: usize, j: usize) { unimplemented!() } #[verifier::external_body] fn vx_sort_by_key<K: VxOrd<K>, F: FnMut(&T) -> K>(&mut self, f: F) { unimplemented!() } }
impl<T> VxVecMore<T> for Vec<T> { open spec fn vx_vq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_dedup(&mut self) where T: VxEq<T> { unimplemented!() } #[verifier::external_body] fn vx_sort_unstable(&mut self) where T: VxOrd<T> { unimplemented!() } #[verifier::external_body] fn vx_swap_remove(&mut self, i: usize) -> (r: T) { unimplemented!() } }

impl<T> VxIter<T> {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn vx_max(self) -> (r: Option<T>) where T: VxOrd<T> ensures r is None == (self@.len() == 0), r is Some ==> exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == r->0 && forall|j: int| 0 <= j < self@.len() ==> (#[trigger] self@[j]).vx_les(&r->0) { unimplemented!() }
    #[verifier::external_body] pub fn vx_min(self) -> (r: Option<T>) where T: VxOrd<T> ensures r is None == (self@.len() == 0), r is Some ==> exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == r->0 && forall|j: int| 0 <= j < self@.len() ==> (r->0).vx_les(#[trigger] &self@[j]) { unimplemented!() }
    #[verifier::external_body] pub fn vx_max_by_key<K: VxOrd<K>, F: FnMut(&T) -> K>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&(#[trigger] self@[i]),)),
        ensures r is None == (self@.len() == 0), r is Some ==> exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == r->0 && forall|j: int| 0 <= j < self@.len() ==> vx_key_le(f, #[trigger] self@[j], r->0) { unimplemented!() }
    #[verifier::external_body] pub fn vx_min_by_key<K: VxOrd<K>, F: FnMut(&T) -> K>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&(#[trigger] self@[i]),)),
        ensures r is None == (self@.len() == 0), r is Some ==> exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == r->0 && forall|j: int| 0 <= j < self@.len() ==> vx_key_le(f, r->0, #[trigger] self@[j]) { unimplemented!() }
    #[verifier::external_body] pub fn vx_take_while<F: FnMut(&T) -> bool>(self, f: F) -> (r: VxIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&(#[trigger] self@[i]),)),
        ensures r@.len() <= self@.len(), r@ == self@.take(r@.len() as int), forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (&(#[trigger] self@[i]),), true), r@.len() < self@.len() ==> call_ensures(f, (&self@[r@.len() as int],), false) { unimplemented!() }
    #[verifier::external_body] pub fn vx_skip_while<F: FnMut(&T) -> bool>(self, f: F) -> (r: VxIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&(#[trigger] self@[i]),)),
        ensures r@.len() <= self@.len(), r@ == self@.skip(self@.len() - r@.len()), forall|i: int| 0 <= i < self@.len() - r@.len() ==> call_ensures(f, (&(#[trigger] self@[i]),), true), r@.len() > 0 ==> call_ensures(f, (&r@[0],), false) { unimplemented!() }
    #[verifier::external_body] pub fn vx_find_map<U, F: FnMut(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures match r { Some(x) => exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), Some(x)) && forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] self@[j],), None::<U>),
            None => forall|j: int| 0 <= j < self@.len() ==> call_ensures(f, (#[trigger] self@[j],), None::<U>) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_step_by(self, n: usize) -> (r: VxIter<T>) ensures n > 0, r@.len() == (self@.len() + n - 1) / n as int, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self@[i * n] { unimplemented!() }
    #[verifier::external_body] pub fn vx_partition<C: VxCollect<T>, F: FnMut(&T) -> bool>(self, f: F) -> (r: (C, C))
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&(#[trigger] self@[i]),)),
        ensures exists|keep: Seq<bool>| keep.len() == self@.len() && C::collects(#[trigger] vx_kept(self@, keep), r.0) && C::collects(vx_kept(self@, keep.map_values(|b: bool| !b)), r.1) && forall|i: int| #![trigger self@[i]] #![trigger keep[i]] 0 <= i < self@.len() ==> call_ensures(f, (&self@[i],), keep[i]) { unimplemented!() }
    #[verifier::external_body] pub fn vx_product<S: VxProd<T>>(self) -> (r: S) ensures S::vx_prods(self@, r) { unimplemented!() }
}
pub trait VxProd<T>: Sized { spec fn vx_prods(s: Seq<T>, r: Self) -> bool; }
pub open spec fn isum<T: VxInt>(s: Seq<T>) -> int decreases s.len() { if s.len() == 0 { 0 } else { isum(s.drop_last()) + s.last().vx_iv() } }
pub open spec fn iprod<T: VxInt>(s: Seq<T>) -> int decreases s.len() { if s.len() == 0 { 1 } else { iprod(s.drop_last()) * s.last().vx_iv() } }
pub open spec fn ipow(b: int, n: nat) -> int decreases n { if n == 0 { 1 } else { ipow(b, (n - 1) as nat) * b } }
// the values a reference iterator goes over
pub open spec fn vx_derefs<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }

pub trait VxOptMore<T>: Sized {
    spec fn vx_om(&self) -> Option<T>;
    fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>) requires self.vx_om() is None ==> call_requires(f, ()) ensures match self.vx_om() { Some(x) => r == Some(x), None => call_ensures(f, (), r) };
    fn vx_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> (r: U) requires self.vx_om() is Some ==> call_requires(f, (self.vx_om()->0,)), self.vx_om() is None ==> call_requires(d, ()) ensures match self.vx_om() { Some(x) => call_ensures(f, (x,), r), None => call_ensures(d, (), r) };
    fn vx_is_none_or<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) requires self.vx_om() is Some ==> call_requires(f, (self.vx_om()->0,)) ensures match self.vx_om() { Some(x) => call_ensures(f, (x,), r), None => r };
    fn vx_xor(self, o: Option<T>) -> (r: Option<T>) ensures r == match (self.vx_om(), o) { (Some(x), None) => Some(x), (None, Some(x)) => Some(x), _ => None };
    fn vx_zip<U>(self, o: Option<U>) -> (r: Option<(T, U)>) ensures r == match (self.vx_om(), o) { (Some(x), Some(y)) => Some((x, y)), _ => None };
    fn vx_take(&mut self) -> (r: Option<T>) ensures r == old(self).vx_om(), final(self).vx_om() is None;
    fn vx_replace(&mut self, x: T) -> (r: Option<T>) ensures r == old(self).vx_om(), final(self).vx_om() == Some(x);
}
impl<T> VxOptMore<T> for Option<T> { open spec fn vx_om(&self) -> Option<T> { *self } #[verifier::external_body] fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>) { unimplemented!() } #[verifier::external_body] fn vx_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> (r: U) { unimplemented!() } #[verifier::external_body] fn vx_is_none_or<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn vx_xor(self, o: Option<T>) -> (r: Option<T>) { unimplemented!() } #[verifier::external_body] fn vx_zip<U>(self, o: Option<U>) -> (r: Option<(T, U)>) { unimplemented!() } #[verifier::external_body] fn vx_take(&mut self) -> (r: Option<T>) { unimplemented!() } #[verifier::external_body] fn vx_replace(&mut self, x: T) -> (r: Option<T>) { unimplemented!() } }

pub trait VxResMore<T, E>: Sized {
    spec fn vx_rm(&self) -> Result<T, E>;
    fn vx_or_else<G, F: FnOnce(E) -> Result<T, G>>(self, f: F) -> (r: Result<T, G>) requires self.vx_rm() is Err ==> call_requires(f, (self.vx_rm()->Err_0,)) ensures match self.vx_rm() { Ok(x) => r == Ok::<T, G>(x), Err(e) => call_ensures(f, (e,), r) };
    fn vx_unwrap_or_else<F: FnOnce(E) -> T>(self, f: F) -> (r: T) requires self.vx_rm() is Err ==> call_requires(f, (self.vx_rm()->Err_0,)) ensures match self.vx_rm() { Ok(x) => r == x, Err(e) => call_ensures(f, (e,), r) };
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) requires self.vx_rm() is Ok ==> call_requires(f, (self.vx_rm()->Ok_0,)) ensures match self.vx_rm() { Ok(x) => call_ensures(f, (x,), r), Err(e) => r == d };
    fn vx_err(self) -> (r: Option<E>) ensures r == match self.vx_rm() { Ok(_) => None, Err(e) => Some(e) };
    fn vx_unwrap_err(self) -> (r: E) ensures self.vx_rm() == Err::<T, E>(r);
    fn vx_or<G>(self, o: Result<T, G>) -> (r: Result<T, G>) ensures match self.vx_rm() { Ok(x) => r == Ok::<T, G>(x), Err(_) => r == o };
    fn vx_as_ref<'a>(&'a self) -> (r: Result<&'a T, &'a E>) ensures match self.vx_rm() { Ok(x) => r is Ok && *(r->Ok_0) == x, Err(e) => r is Err && *(r->Err_0) == e };
}
impl<T, E> VxResMore<T, E> for Result<T, E> { open spec fn vx_rm(&self) -> Result<T, E> { *self } #[verifier::external_body] fn vx_or_else<G, F: FnOnce(E) -> Result<T, G>>(self, f: F) -> (r: Result<T, G>) { unimplemented!() } #[verifier::external_body] fn vx_unwrap_or_else<F: FnOnce(E) -> T>(self, f: F) -> (r: T) { unimplemented!() } #[verifier::external_body] fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) { unimplemented!() } #[verifier::external_body] fn vx_err(self) -> (r: Option<E>) { unimplemented!() } #[verifier::external_body] fn vx_unwrap_err(self) -> (r: E) { unimplemented!() } #[verifier::external_body] fn vx_or<G>(self, o: Result<T, G>) -> (r: Result<T, G>) { unimplemented!() } #[verifier::external_body] fn vx_as_ref<'a>(&'a self) -> (r: Result<&'a T, &'a E>) { unimplemented!() } }
pub trait VxIntMore: VxInt {
    fn vx_pow(self, n: u32) -> (r: Self) ensures r.vx_iv() == ipow(self.vx_iv(), n as nat);
    fn vx_checked_pow(self, n: u32) -> (r: Option<Self>) ensures r is Some == (Self::vx_imin() <= ipow(self.vx_iv(), n as nat) <= Self::vx_imax()), r is Some ==> r->0.vx_iv() == ipow(self.vx_iv(), n as nat);
    fn vx_rem_euclid(self, o: Self) -> (r: Self) ensures o.vx_iv() != 0, o.vx_iv() > 0 ==> r.vx_iv() == self.vx_iv() % o.vx_iv();
    fn vx_saturating_mul(self, o: Self) -> (r: Self) ensures r.vx_iv() == if self.vx_iv() * o.vx_iv() > Self::vx_imax() { Self::vx_imax() } else if self.vx_iv() * o.vx_iv() < Self::vx_imin() { Self::vx_imin() } else { self.vx_iv() * o.vx_iv() };
    fn vx_is_power_of_two(self) -> (r: bool);
}
pub trait VxAbsDiff: Sized { type O; spec fn vx_ads(a: Self, b: Self, r: Self::O) -> bool; fn vx_abs_diff(self, o: Self) -> (r: Self::O) ensures Self::vx_ads(self, o, r); }
impl VxIntMore for u8 { #[verifier::external_body] fn vx_pow(self, n: u32) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_checked_pow(self, n: u32) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_rem_euclid(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_saturating_mul(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_is_power_of_two(self) -> (r: bool) { unimplemented!() } }
impl VxSum<u8> for u8 { open spec fn vx_sums(s: Seq<u8>, r: u8) -> bool { r.vx_iv() == isum(s) } }
impl<'a> VxSum<&'a u8> for u8 { open spec fn vx_sums(s: Seq<&'a u8>, r: u8) -> bool { r.vx_iv() == isum(vx_derefs(s)) } }
impl VxProd<u8> for u8 { open spec fn vx_prods(s: Seq<u8>, r: u8) -> bool { r.vx_iv() == iprod(s) } }
impl<'a> VxProd<&'a u8> for u8 { open spec fn vx_prods(s: Seq<&'a u8>, r: u8) -> bool { r.vx_iv() == iprod(vx_derefs(s)) } }
impl VxIntMore for u16 { #[verifier::external_body] fn vx_pow(self, n: u32) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_checked_pow(self, n: u32) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_rem_euclid(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_saturating_mul(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_is_power_of_two(self) -> (r: bool) { unimplemented!() } }
impl VxSum<u16> for u16 { open spec fn vx_sums(s: Seq<u16>, r: u16) -> bool { r.vx_iv() == isum(s) } }
impl<'a> VxSum<&'a u16> for u16 { open spec fn vx_sums(s: Seq<&'a u16>, r: u16) -> bool { r.vx_iv() == isum(vx_derefs(s)) } }
impl VxProd<u16> for u16 { open spec fn vx_prods(s: Seq<u16>, r: u16) -> bool { r.vx_iv() == iprod(s) } }
impl<'a> VxProd<&'a u16> for u16 { open spec fn vx_prods(s: Seq<&'a u16>, r: u16) -> bool { r.vx_iv() == iprod(vx_derefs(s)) } }
impl VxIntMore for u32 { #[verifier::external_body] fn vx_pow(self, n: u32) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_checked_pow(self, n: u32) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_rem_euclid(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_saturating_mul(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_is_power_of_two(self) -> (r: bool) { unimplemented!() } }
impl VxSum<u32> for u32 { open spec fn vx_sums(s: Seq<u32>, r: u32) -> bool { r.vx_iv() == isum(s) } }
impl<'a> VxSum<&'a u32> for u32 { open spec fn vx_sums(s: Seq<&'a u32>, r: u32) -> bool { r.vx_iv() == isum(vx_derefs(s)) } }
impl VxProd<u32> for u32 { open spec fn vx_prods(s: Seq<u32>, r: u32) -> bool { r.vx_iv() == iprod(s) } }
impl<'a> VxProd<&'a u32> for u32 { open spec fn vx_prods(s: Seq<&'a u32>, r: u32) -> bool { r.vx_iv() == iprod(vx_derefs(s)) } }
impl VxIntMore for u64 { #[verifier::external_body] fn vx_pow(self, n: u32) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_checked_pow(self, n: u32) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_rem_euclid(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_saturating_mul(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_is_power_of_two(self) -> (r: bool) { unimplemented!() } }
impl VxSum<u64> for u64 { open spec fn vx_sums(s: Seq<u64>, r: u64) -> bool { r.vx_iv() == isum(s) } }
impl<'a> VxSum<&'a u64> for u64 { open spec fn vx_sums(s: Seq<&'a u64>, r: u64) -> bool { r.vx_iv() == isum(vx_derefs(s)) } }
impl VxProd<u64> for u64 { open spec fn vx_prods(s: Seq<u64>, r: u64) -> bool { r.vx_iv() == iprod(s) } }
impl<'a> VxProd<&'a u64> for u64 { open spec fn vx_prods(s: Seq<&'a u64>, r: u64) -> bool { r.vx_iv() == iprod(vx_derefs(s)) } }
impl VxIntMore for u128 { #[verifier::external_body] fn vx_pow(self, n: u32) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_checked_pow(self, n: u32) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_rem_euclid(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_saturating_mul(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_is_power_of_two(self) -> (r: bool) { unimplemented!() } }
impl VxSum<u128> for u128 { open spec fn vx_sums(s: Seq<u128>, r: u128) -> bool { r.vx_iv() == isum(s) } }
impl<'a> VxSum<&'a u128> for u128 { open spec fn vx_sums(s: Seq<&'a u128>, r: u128) -> bool { r.vx_iv() == isum(vx_derefs(s)) } }
impl VxProd<u128> for u128 { open spec fn vx_prods(s: Seq<u128>, r: u128) -> bool { r.vx_iv() == iprod(s) } }
impl<'a> VxProd<&'a u128> for u128 { open spec fn vx_prods(s: Seq<&'a u128>, r: u128) -> bool { r.vx_iv() == iprod(vx_derefs(s)) } }
impl VxIntMore for usize { #[verifier::external_body] fn vx_pow(self, n: u32) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_checked_pow(self, n: u32) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_rem_euclid(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_saturating_mul(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_is_power_of_two(self) -> (r: bool) { unimplemented!() } }
impl VxSum<usize> for usize { open spec fn vx_sums(s: Seq<usize>, r: usize) -> bool { r.vx_iv() == isum(s) } }
impl<'a> VxSum<&'a usize> for usize { open spec fn vx_sums(s: Seq<&'a usize>, r: usize) -> bool { r.vx_iv() == isum(vx_derefs(s)) } }
impl VxProd<usize> for usize { open spec fn vx_prods(s: Seq<usize>, r: usize) -> bool { r.vx_iv() == iprod(s) } }
impl<'a> VxProd<&'a usize> for usize { open spec fn vx_prods(s: Seq<&'a usize>, r: usize) -> bool { r.vx_iv() == iprod(vx_derefs(s)) } }
impl VxIntMore for i32 { #[verifier::external_body] fn vx_pow(self, n: u32) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_checked_pow(self, n: u32) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_rem_euclid(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_saturating_mul(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_is_power_of_two(self) -> (r: bool) { unimplemented!() } }
impl VxSum<i32> for i32 { open spec fn vx_sums(s: Seq<i32>, r: i32) -> bool { r.vx_iv() == isum(s) } }
impl<'a> VxSum<&'a i32> for i32 { open spec fn vx_sums(s: Seq<&'a i32>, r: i32) -> bool { r.vx_iv() == isum(vx_derefs(s)) } }
impl VxProd<i32> for i32 { open spec fn vx_prods(s: Seq<i32>, r: i32) -> bool { r.vx_iv() == iprod(s) } }
impl<'a> VxProd<&'a i32> for i32 { open spec fn vx_prods(s: Seq<&'a i32>, r: i32) -> bool { r.vx_iv() == iprod(vx_derefs(s)) } }
impl VxIntMore for i64 { #[verifier::external_body] fn vx_pow(self, n: u32) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_checked_pow(self, n: u32) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_rem_euclid(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_saturating_mul(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_is_power_of_two(self) -> (r: bool) { unimplemented!() } }
impl VxSum<i64> for i64 { open spec fn vx_sums(s: Seq<i64>, r: i64) -> bool { r.vx_iv() == isum(s) } }
impl<'a> VxSum<&'a i64> for i64 { open spec fn vx_sums(s: Seq<&'a i64>, r: i64) -> bool { r.vx_iv() == isum(vx_derefs(s)) } }
impl VxProd<i64> for i64 { open spec fn vx_prods(s: Seq<i64>, r: i64) -> bool { r.vx_iv() == iprod(s) } }
impl<'a> VxProd<&'a i64> for i64 { open spec fn vx_prods(s: Seq<&'a i64>, r: i64) -> bool { r.vx_iv() == iprod(vx_derefs(s)) } }
impl VxIntMore for i128 { #[verifier::external_body] fn vx_pow(self, n: u32) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_checked_pow(self, n: u32) -> (r: Option<Self>) { unimplemented!() } #[verifier::external_body] fn vx_rem_euclid(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_saturating_mul(self, o: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_is_power_of_two(self) -> (r: bool) { unimplemented!() } }
impl VxSum<i128> for i128 { open spec fn vx_sums(s: Seq<i128>, r: i128) -> bool { r.vx_iv() == isum(s) } }
impl<'a> VxSum<&'a i128> for i128 { open spec fn vx_sums(s: Seq<&'a i128>, r: i128) -> bool { r.vx_iv() == isum(vx_derefs(s)) } }
impl VxProd<i128> for i128 { open spec fn vx_prods(s: Seq<i128>, r: i128) -> bool { r.vx_iv() == iprod(s) } }
impl<'a> VxProd<&'a i128> for i128 { open spec fn vx_prods(s: Seq<&'a i128>, r: i128) -> bool { r.vx_iv() == iprod(vx_derefs(s)) } }
impl VxAbsDiff for u8 { type O = u8; open spec fn vx_ads(a: u8, b: u8, r: u8) -> bool { r as int == if a >= b { a - b } else { b - a } } #[verifier::external_body] fn vx_abs_diff(self, o: u8) -> (r: u8) { unimplemented!() } }
impl VxAbsDiff for u16 { type O = u16; open spec fn vx_ads(a: u16, b: u16, r: u16) -> bool { r as int == if a >= b { a - b } else { b - a } } #[verifier::external_body] fn vx_abs_diff(self, o: u16) -> (r: u16) { unimplemented!() } }
impl VxAbsDiff for u32 { type O = u32; open spec fn vx_ads(a: u32, b: u32, r: u32) -> bool { r as int == if a >= b { a - b } else { b - a } } #[verifier::external_body] fn vx_abs_diff(self, o: u32) -> (r: u32) { unimplemented!() } }
impl VxAbsDiff for u64 { type O = u64; open spec fn vx_ads(a: u64, b: u64, r: u64) -> bool { r as int == if a >= b { a - b } else { b - a } } #[verifier::external_body] fn vx_abs_diff(self, o: u64) -> (r: u64) { unimplemented!() } }
impl VxAbsDiff for u128 { type O = u128; open spec fn vx_ads(a: u128, b: u128, r: u128) -> bool { r as int == if a >= b { a - b } else { b - a } } #[verifier::external_body] fn vx_abs_diff(self, o: u128) -> (r: u128) { unimplemented!() } }
impl VxAbsDiff for usize { type O = usize; open spec fn vx_ads(a: usize, b: usize, r: usize) -> bool { r as int == if a >= b { a - b } else { b - a } } #[verifier::external_body] fn vx_abs_diff(self, o: usize) -> (r: usize) { unimplemented!() } }

// an inclusive range, as the values it goes over
pub trait VxIncl: VxInt { fn vx_incl1(self, b: Self) -> (r: VxIter<Self>) ensures r@.len() == if b.vx_iv() >= self.vx_iv() { (b.vx_iv() - self.vx_iv() + 1) as nat } else { 0 }, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).vx_iv() == self.vx_iv() + i; }
pub fn vx_incl<T: VxIncl>(a: T, b: T) -> (r: VxIter<T>) ensures r@.len() == if b.vx_iv() >= a.vx_iv() { (b.vx_iv() - a.vx_iv() + 1) as nat } else { 0 }, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).vx_iv() == a.vx_iv() + i { a.vx_incl1(b) }
impl VxIncl for u8 { #[verifier::external_body] fn vx_incl1(self, b: u8) -> (r: VxIter<u8>) { unimplemented!() } }
impl VxIncl for u16 { #[verifier::external_body] fn vx_incl1(self, b: u16) -> (r: VxIter<u16>) { unimplemented!() } }
impl VxIncl for u32 { #[verifier::external_body] fn vx_incl1(self, b: u32) -> (r: VxIter<u32>) { unimplemented!() } }
impl VxIncl for u64 { #[verifier::external_body] fn vx_incl1(self, b: u64) -> (r: VxIter<u64>) { unimplemented!() } }
impl VxIncl for u128 { #[verifier::external_body] fn vx_incl1(self, b: u128) -> (r: VxIter<u128>) { unimplemented!() } }
impl VxIncl for usize { #[verifier::external_body] fn vx_incl1(self, b: usize) -> (r: VxIter<usize>) { unimplemented!() } }
}
pub mod vxstd {
    use vstd::prelude::*;
    pub mod str { pub trait FromStr {} }
    pub mod string { pub use std::string::String; }
    pub mod vec { pub struct IntoIter<T> { pub x: T } }
    pub mod ops { pub use core::ops::Range; pub trait Deref {} pub trait DerefMut {} pub trait Add {} pub trait Sub {} pub trait Mul {} pub trait Div {} }
    pub mod cmp { pub use core::cmp::Ordering; pub use core::cmp::Reverse;
        #[verifier::external_body] pub fn min<A: crate::vx::VxOrd<A>>(a: A, b: A) -> (r: A) ensures r == if a.vx_les(&b) { a } else { b } { unimplemented!() }
        #[verifier::external_body] pub fn max<A: crate::vx::VxOrd<A>>(a: A, b: A) -> (r: A) ensures r == if a.vx_les(&b) { b } else { a } { unimplemented!() } }
    pub mod mem { use vstd::prelude::*;
        #[verifier::external_body] pub fn take<T: crate::vx::VxDefault>(x: &mut T) -> (r: T) ensures r == *old(x), T::vx_is_default(*final(x)) { unimplemented!() }
        #[verifier::external_body] pub fn replace<T>(x: &mut T, y: T) -> (r: T) ensures r == *old(x), *final(x) == y { unimplemented!() }
        #[verifier::external_body] pub fn swap<T>(x: &mut T, y: &mut T) ensures *final(x) == *old(y), *final(y) == *old(x) { unimplemented!() } }
    pub mod convert { pub trait TryFrom {} }
    pub mod iter { pub trait FromIterator {} }
    pub mod fmt { pub trait Display {} pub trait Debug {} }
    pub mod num { #[verifier::external_body] pub struct ParseIntError { s: u8 } impl crate::vx::VxDisplay for ParseIntError { uninterp spec fn vx_disp(&self) -> vstd::prelude::Seq<char>; } }
    pub mod collections { pub use super::BTreeMap; pub use super::BTreeSet; pub use super::HashSet; pub use super::BTreeMap as HashMap; }
    pub use crate::vxmap::*;
}
pub mod vxmap {
    use vstd::prelude::*;
    use crate::vx::*;
    pub trait VxKey { type V; spec fn vx_k(&self) -> Self::V; }
    impl VxKey for String { type V = Seq<char>; open spec fn vx_k(&self) -> Seq<char> { self@ } }
    impl VxKey for str { type V = Seq<char>; open spec fn vx_k(&self) -> Seq<char> { self@ } }
    impl VxKey for u64 { type V = u64; open spec fn vx_k(&self) -> u64 { *self } }
    impl<'a, T: VxKey + ?Sized> VxKey for &'a T { type V = T::V; open spec fn vx_k(&self) -> T::V { (**self).vx_k() } }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::reject_recursive_types(V)]
    pub struct BTreeMap<K: VxKey, V> { x: Vec<(K, V)> }
    impl<K: VxKey, V> BTreeMap<K, V> {
        pub uninterp spec fn view(&self) -> Map<K::V, V>;
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.vx_k(), v), r == if old(self)@.dom().contains(k.vx_k()) { Some(old(self)@[k.vx_k()]) } else { None } { unimplemented!() }
        #[verifier::external_body] pub fn get<Q: VxKey<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>) ensures r is Some == self@.dom().contains(k.vx_k()), r is Some ==> *(r->0) == self@[k.vx_k()] { unimplemented!() }
        #[verifier::external_body] pub fn contains_key<Q: VxKey<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k.vx_k()) { unimplemented!() }
        #[verifier::external_body] pub fn vx_get_mut<'a, Q: VxKey<V = K::V> + ?Sized>(&'a mut self, k: &Q) -> (r: Option<&'a mut V>)
            ensures !old(self)@.dom().contains(k.vx_k()) ==> r is None && final(self)@ == old(self)@,
                old(self)@.dom().contains(k.vx_k()) ==> r is Some && *(r->0) == old(self)@[k.vx_k()] && final(self)@ == old(self)@.insert(k.vx_k(), *final(r->0)) { unimplemented!() }
        #[verifier::external_body] pub fn remove<Q: VxKey<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k.vx_k()), r == if old(self)@.dom().contains(k.vx_k()) { Some(old(self)@[k.vx_k()]) } else { None } { unimplemented!() }
    }
    // entries collected in order, later ones replacing earlier ones
    pub open spec fn mapof<K: VxKey, V>(s: Seq<(K, V)>) -> Map<K::V, V> decreases s.len() { if s.len() == 0 { Map::empty() } else { mapof(s.drop_last()).insert(s.last().0.vx_k(), s.last().1) } }
    impl<K: VxKey, V> VxCollect<(K, V)> for BTreeMap<K, V> { open spec fn collects(s: Seq<(K, V)>, r: Self) -> bool { r@ == mapof::<K, V>(s) } }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    pub struct HashSet<K: VxKey> { x: Vec<K> }
    impl<K: VxKey> HashSet<K> {
        pub uninterp spec fn view(&self) -> Set<K::V>;
        pub uninterp spec fn order(&self) -> Seq<K>;
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K::V>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.vx_k()), r == !old(self)@.contains(k.vx_k()) { unimplemented!() }
    }
    // the elements in an unspecified order, each once
    pub open spec fn vx_keysof<K: VxKey>(s: Seq<K>) -> Seq<K::V> { s.map_values(|k: K| k.vx_k()) }
    pub broadcast axiom fn ax_hashset<K: VxKey>(s: HashSet<K>) ensures #[trigger] vx_keysof(s.order()).to_set() == s@, vx_keysof(s.order()).no_duplicates();
    impl<K: VxKey> VxCollect<K> for BTreeSet<K> { open spec fn collects(s: Seq<K>, r: Self) -> bool { r@ == s.map_values(|k: K| k.vx_k()).to_set() } }
    impl<K: VxKey> VxCollect<K> for HashSet<K> { open spec fn collects(s: Seq<K>, r: Self) -> bool { r@ == s.map_values(|k: K| k.vx_k()).to_set() } }
    impl<K: VxKey> VxSrc for HashSet<K> { type VxItem = K; open spec fn vx_seq(&self) -> Seq<K> { self.order() } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<K>) { unimplemented!() } }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    pub struct BTreeSet<K: VxKey> { x: Vec<K> }
    impl<K: VxKey> BTreeSet<K> {
        pub uninterp spec fn view(&self) -> Set<K::V>;
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K::V>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.vx_k()), r == !old(self)@.contains(k.vx_k()) { unimplemented!() }
    }

    pub use self::BTreeMap as HashMap;
    impl<K: VxKey, V> BTreeMap<K, V> {
        // the entries in an unspecified order, each key once
        pub uninterp spec fn order(&self) -> Seq<(K, V)>;
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
        #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K::V, V>::empty()) { unimplemented!() }
        #[verifier::external_body] pub fn vx_keys<'a>(&'a self) -> (r: VxIter<&'a K>) ensures r@.len() == self.order().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.order()[i].0 { unimplemented!() }
        #[verifier::external_body] pub fn vx_values<'a>(&'a self) -> (r: VxIter<&'a V>) ensures r@.len() == self.order().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.order()[i].1 { unimplemented!() }
        #[verifier::external_body] pub fn vx_iter<'a>(&'a self) -> (r: VxIter<(&'a K, &'a V)>) ensures r@.len() == self.order().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == self.order()[i].0 && *r@[i].1 == self.order()[i].1 { unimplemented!() }
    }
    pub broadcast axiom fn ax_maporder<K: VxKey, V>(s: BTreeMap<K, V>) ensures mapof::<K, V>(#[trigger] s.order()) == s@, s.order().len() == s@.dom().len();
    impl<K: VxKey, V> VxSrc for BTreeMap<K, V> { type VxItem = (K, V); open spec fn vx_seq(&self) -> Seq<(K, V)> { self.order() } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<(K, V)>) { unimplemented!() } }
    impl<K: VxKey> HashSet<K> {
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K::V>::empty()) { unimplemented!() }
        #[verifier::external_body] pub fn vx_contains<Q: VxKey<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains(k.vx_k()) { unimplemented!() }
        #[verifier::external_body] pub fn remove<Q: VxKey<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: bool) ensures final(self)@ == old(self)@.remove(k.vx_k()), r == old(self)@.contains(k.vx_k()) { unimplemented!() }
    }
    impl<K: VxKey> BTreeSet<K> {
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K::V>::empty()) { unimplemented!() }
        #[verifier::external_body] pub fn vx_contains<Q: VxKey<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains(k.vx_k()) { unimplemented!() }
        #[verifier::external_body] pub fn remove<Q: VxKey<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: bool) ensures final(self)@ == old(self)@.remove(k.vx_k()), r == old(self)@.contains(k.vx_k()) { unimplemented!() }
    }
    impl<K: VxKey> HashSet<K> { #[verifier::external_body] pub fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a K>) ensures r@.len() == self.order().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.order()[i] { unimplemented!() } }
    impl<K: VxKey> BTreeSet<K> { pub uninterp spec fn order(&self) -> Seq<K>; #[verifier::external_body] pub fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a K>) ensures r@.len() == self.order().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.order()[i] { unimplemented!() } }
    // the elements of an ordered set, ascending
    pub broadcast axiom fn ax_btreeset<K: VxKey + VxOrd<K>>(s: BTreeSet<K>) ensures #[trigger] vx_keysof(s.order()).to_set() == s@, vx_keysof(s.order()).no_duplicates(), forall|i: int, j: int| #![trigger s.order()[i], s.order()[j]] 0 <= i < j < s.order().len() ==> s.order()[i].vx_les(&s.order()[j]);
    impl<K: VxKey> VxSrc for BTreeSet<K> { type VxItem = K; open spec fn vx_seq(&self) -> Seq<K> { self.order() } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<K>) { unimplemented!() } }
    impl VxKey for u32 { type V = u32; open spec fn vx_k(&self) -> u32 { *self } }
    impl VxKey for u128 { type V = u128; open spec fn vx_k(&self) -> u128 { *self } }
    impl VxKey for usize { type V = usize; open spec fn vx_k(&self) -> usize { *self } }
    impl<A: VxKey, B: VxKey> VxKey for (A, B) { type V = (A::V, B::V); open spec fn vx_k(&self) -> (A::V, B::V) { (self.0.vx_k(), self.1.vx_k()) } }
}
}
