use vstd::prelude::*;
verus! {
// hashes, hex and bech32: uninterpreted functions with their lengths
pub mod cry {
use vstd::prelude::*;
pub uninterp spec fn sha256(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn ripemd160(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn unhex(s: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn hexs(s: Seq<u8>) -> Seq<char>;
pub uninterp spec fn bech32s(hrp: Seq<char>, data: Seq<u8>, m: bool) -> Seq<char>;
pub broadcast axiom fn ax_sha_len(s: Seq<u8>) ensures (#[trigger] sha256(s)).len() == 32;
pub broadcast axiom fn ax_rip_len(s: Seq<u8>) ensures (#[trigger] ripemd160(s)).len() == 20;
}
pub mod sha2 {
use vstd::prelude::*;
use crate::vx::*;
pub trait Digest {}
#[verifier::external_body] pub struct Sha256 { x: u8 }
#[verifier::external_body] pub struct Out { x: u8 }
impl Sha256 { pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update<A: VxAsRef<[u8]>>(&mut self, a: A) ensures final(self)@ == old(self)@ + a.vx_ar() { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self) -> (r: Out) ensures r@ == crate::cry::sha256(self@) { unimplemented!() }
    #[verifier::external_body] pub fn digest<A: VxAsRef<[u8]>>(a: A) -> (r: Out) ensures r@ == crate::cry::sha256(a.vx_ar()) { unimplemented!() }
}
impl Out { pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn vx_as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() } }
impl VxInto<[u8; 32]> for Out { open spec fn vx_into_spec(self, r: [u8; 32]) -> bool { r@ == self@ } #[verifier::external_body] fn vx_into(self) -> (r: [u8; 32]) { unimplemented!() } }
}
pub mod ripemd {
use vstd::prelude::*;
use crate::vx::*;
pub trait Digest {}
#[verifier::external_body] pub struct Ripemd160 { x: u8 }
impl Ripemd160 { pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update<A: VxAsRef<[u8]>>(&mut self, a: A) ensures final(self)@ == old(self)@ + a.vx_ar() { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self) -> (r: crate::sha2::Out) ensures r@ == crate::cry::ripemd160(self@) { unimplemented!() }
}
}
pub mod bech32 {
use vstd::prelude::*;
use crate::vx::*;
pub enum Variant { Bech32, Bech32m }
#[verifier::external_body] pub struct Error { s: String }
#[verifier::external_body] pub struct Base32 { x: u8 }
impl Base32 { pub uninterp spec fn view(&self) -> Seq<u8>; }
pub trait ToBase32 { spec fn b32(&self) -> Seq<u8>; fn to_base32(&self) -> (r: Base32) ensures r@ == self.b32(); }
impl<const N: usize> ToBase32 for [u8; N] { open spec fn b32(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn to_base32(&self) -> (r: Base32) { unimplemented!() } }
impl ToBase32 for Vec<u8> { open spec fn b32(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn to_base32(&self) -> (r: Base32) { unimplemented!() } }
#[verifier::external_body] pub fn encode(hrp: &str, d: Base32, v: Variant) -> (r: Result<String, Error>) ensures r is Ok ==> r->Ok_0@ == crate::cry::bech32s(hrp@, d@, v is Bech32m) { unimplemented!() }
}
pub mod hex {
use vstd::prelude::*;
use crate::vx::*;
#[verifier::external_body] pub struct FromHexError { s: String }
impl VxDisplay for FromHexError { uninterp spec fn vx_disp(&self) -> Seq<char>; }
#[verifier::external_body] pub fn decode<A: VxAsRef<[u8]>>(a: A) -> (r: Result<Vec<u8>, FromHexError>) ensures (r is Ok) == (crate::cry::unhex(a.vx_ar()) is Some), r is Ok ==> r->Ok_0@ == crate::cry::unhex(a.vx_ar())->0 { unimplemented!() }
#[verifier::external_body] pub fn decode_to_slice<A: VxAsRef<[u8]>, const N: usize>(a: A, out: &mut [u8; N]) -> (r: Result<(), FromHexError>)
    ensures (r is Ok) == (crate::cry::unhex(a.vx_ar()) is Some && (crate::cry::unhex(a.vx_ar())->0).len() == N), r is Ok ==> final(out)@ == crate::cry::unhex(a.vx_ar())->0 { unimplemented!() }
#[verifier::external_body] pub fn encode<A: VxAsRef<[u8]>>(a: A) -> (r: String) ensures r@ == crate::cry::hexs(a.vx_ar()) { unimplemented!() }
}
}
