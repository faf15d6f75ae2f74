# writes vx.rs: contracts assumed for the Rust standard library (authoring-time generator; output is committed)
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gen_more import MORE_VX, CMP, MAPS
o=[]
P=o.append
P('''use vstd::prelude::*;
// Assumed contracts for the parts of the Rust standard library the contracts use.
// A panic reverts the transaction, so every function here states what holds *if it returns*.
verus! {
pub mod vx {
use vstd::prelude::*;
pub use crate::vxstd::BTreeMap;

// two strings (vectors) with the same content are the same value
// a string is its characters
pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub broadcast axiom fn ax_string_ext(a: String) ensures string_of(#[trigger] a@) == a;
pub axiom fn ax_vec_ext<T>(a: Vec<T>, b: Vec<T>) ensures a@ == b@ ==> a == b;
pub axiom fn ax_string_of(s: Seq<char>) -> (r: String) ensures r@ == s;
pub axiom fn ax_vec_of<T>(s: Seq<T>) -> (r: Vec<T>) ensures r@ == s;

#[verifier::external_body]
pub fn vx_assert(b: bool) ensures b { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic() -> ! { unimplemented!() }
#[verifier::external_body]
pub fn vx_idx(i: usize, n: usize) -> (r: usize) ensures r == i, i < n { unimplemented!() }

// ---- arithmetic (overflow panics, i.e. reverts)
''')
ints=['u8','u16','u32','u64','u128','usize','i32','i64','i128']
for op,nm in [('+','add'),('-','sub'),('*','mul'),('/','div'),('%','rem')]:
    T='Vx'+nm.capitalize()
    P(f'''pub trait {T}<B>: Sized {{ type O; spec fn vx_{nm}_s(a: Self, b: B, r: Self::O) -> bool; }}
#[verifier::external_body]
pub fn vx_{nm}<A: {T}<B>, B>(a: A, b: B) -> (r: A::O) ensures A::vx_{nm}_s(a, b, r) {{ unimplemented!() }}
''')
    for t in ints:
        pre='b != 0 && ' if op in '/%' else ''
        body=f'{pre}r as int == a as int {op} b as int'
        if op in '/%' and t[0]=='i': body='b != 0 && (a >= 0 && b > 0 ==> r as int == a as int %s b as int)'%op
        P(f'impl {T}<{t}> for {t} {{ type O = {t}; open spec fn vx_{nm}_s(a: {t}, b: {t}, r: {t}) -> bool {{ {body} }} }}\n')
        P(f"impl<'a> {T}<{t}> for &'a {t} {{ type O = {t}; open spec fn vx_{nm}_s(a: &'a {t}, b: {t}, r: {t}) -> bool {{ <{t} as {T}<{t}>>::vx_{nm}_s(*a, b, r) }} }}\n")
        P(f"impl<'a> {T}<&'a {t}> for {t} {{ type O = {t}; open spec fn vx_{nm}_s(a: {t}, b: &'a {t}, r: {t}) -> bool {{ <{t} as {T}<{t}>>::vx_{nm}_s(a, *b, r) }} }}\n")
P('''// integer methods whose overflow is a value rather than a panic
pub trait VxInt: Sized { spec fn vx_iv(&self) -> int; spec fn vx_imin() -> int; spec fn vx_imax() -> int;
    fn vx_checked_add(self, o: Self) -> (r: Option<Self>) ensures r is Some == (Self::vx_imin() <= self.vx_iv() + o.vx_iv() <= Self::vx_imax()), r is Some ==> r->0.vx_iv() == self.vx_iv() + o.vx_iv();
    fn vx_checked_sub(self, o: Self) -> (r: Option<Self>) ensures r is Some == (Self::vx_imin() <= self.vx_iv() - o.vx_iv() <= Self::vx_imax()), r is Some ==> r->0.vx_iv() == self.vx_iv() - o.vx_iv();
    fn vx_checked_mul(self, o: Self) -> (r: Option<Self>) ensures r is Some == (Self::vx_imin() <= self.vx_iv() * o.vx_iv() <= Self::vx_imax()), r is Some ==> r->0.vx_iv() == self.vx_iv() * o.vx_iv();
    fn vx_checked_div(self, o: Self) -> (r: Option<Self>) ensures r is Some ==> o.vx_iv() != 0, r is Some && self.vx_iv() >= 0 && o.vx_iv() > 0 ==> r->0.vx_iv() == self.vx_iv() / o.vx_iv();
    fn vx_saturating_add(self, o: Self) -> (r: Self) ensures r.vx_iv() == if self.vx_iv() + o.vx_iv() > Self::vx_imax() { Self::vx_imax() } else if self.vx_iv() + o.vx_iv() < Self::vx_imin() { Self::vx_imin() } else { self.vx_iv() + o.vx_iv() };
    fn vx_saturating_sub(self, o: Self) -> (r: Self) ensures r.vx_iv() == if self.vx_iv() - o.vx_iv() > Self::vx_imax() { Self::vx_imax() } else if self.vx_iv() - o.vx_iv() < Self::vx_imin() { Self::vx_imin() } else { self.vx_iv() - o.vx_iv() };
    fn vx_min(self, o: Self) -> (r: Self) ensures r.vx_iv() == if self.vx_iv() <= o.vx_iv() { self.vx_iv() } else { o.vx_iv() };
    fn vx_max(self, o: Self) -> (r: Self) ensures r.vx_iv() == if self.vx_iv() >= o.vx_iv() { self.vx_iv() } else { o.vx_iv() };
}
''')
for t in ints:
    P(f'impl VxInt for {t} {{ open spec fn vx_iv(&self) -> int {{ *self as int }} open spec fn vx_imin() -> int {{ {t}::MIN as int }} open spec fn vx_imax() -> int {{ {t}::MAX as int }} ' + ' '.join(f'#[verifier::external_body] fn vx_{n}(self, o: Self) -> (r: {rt}) {{ unimplemented!() }}' for n,rt in [('checked_add','Option<Self>'),('checked_sub','Option<Self>'),('checked_mul','Option<Self>'),('checked_div','Option<Self>'),('saturating_add','Self'),('saturating_sub','Self'),('min','Self'),('max','Self')]) + '}\n')
P("impl<'a> VxAdd<&'a str> for String { type O = String; open spec fn vx_add_s(a: String, b: &'a str, r: String) -> bool { r@ == a@ + b@ } }\n")
P("impl<'a> VxAdd<&'a String> for String { type O = String; open spec fn vx_add_s(a: String, b: &'a String, r: String) -> bool { r@ == a@ + b@ } }\n")
P('''
// ---- equality and order
pub trait VxEq<B: ?Sized> { spec fn vx_eqs(&self, o: &B) -> bool; fn vx_eq(&self, o: &B) -> (r: bool) ensures r == self.vx_eqs(o); }
pub fn vx_eq<A: VxEq<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == a.vx_eqs(b) { a.vx_eq(b) }
''')
def eq(a,b,body,g=''):
    P(f'impl{g} VxEq<{b}> for {a} {{ open spec fn vx_eqs(&self, o: &{b}) -> bool {{ {body} }} #[verifier::external_body] fn vx_eq(&self, o: &{b}) -> (r: bool) {{ unimplemented!() }} }}\n')
for t in ints+['bool','char']: eq(t,t,'*self == *o')
eq('String','String','self@ == o@'); eq('String','str','self@ == o@'); eq('str','String','self@ == o@'); eq('str','str','self@ == o@')
eq('String',"&'a str",'self@ == (*o)@',"<'a>"); eq("&'a str",'String','(*self)@ == o@',"<'a>")
eq("&'a A","&'b B",'(**self).vx_eqs(*o)',"<'a, 'b, A: VxEq<B> + ?Sized, B: ?Sized>")
eq("Option<A>","Option<B>",'match (self, o) { (Some(x), Some(y)) => x.vx_eqs(y), (None, None) => true, _ => false }',"<A: VxEq<B>, B>")
eq("Vec<A>","Vec<B>",'self@.len() == o@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).vx_eqs(&o@[i])',"<A: VxEq<B>, B>")
eq("[u8; N]","[u8; N]",'self@ == o@',"<const N: usize>"); eq("Vec<u8>","[u8]",'self@ == o@'); eq("[u8]","[u8]",'self@ == o@')
eq("(A, C)","(B, D)",'self.0.vx_eqs(&o.0) && self.1.vx_eqs(&o.1)',"<A: VxEq<B>, B, C: VxEq<D>, D>")
P('''
pub trait VxOrd<B: ?Sized> { spec fn vx_lts(&self, o: &B) -> bool; spec fn vx_les(&self, o: &B) -> bool; }
#[verifier::external_body]
pub fn vx_lt<A: VxOrd<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == a.vx_lts(b) { unimplemented!() }
#[verifier::external_body]
pub fn vx_le<A: VxOrd<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == a.vx_les(b) { unimplemented!() }
#[verifier::external_body]
pub fn vx_gt<A: VxOrd<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == !a.vx_les(b) { unimplemented!() }
#[verifier::external_body]
pub fn vx_ge<A: VxOrd<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == !a.vx_lts(b) { unimplemented!() }
''')
for t in ints: P(f'impl VxOrd<{t}> for {t} {{ open spec fn vx_lts(&self, o: &{t}) -> bool {{ *self < *o }} open spec fn vx_les(&self, o: &{t}) -> bool {{ *self <= *o }} }}\n')
P('''impl<'a, 'b, A: VxOrd<B> + ?Sized, B: ?Sized> VxOrd<&'b B> for &'a A { open spec fn vx_lts(&self, o: &&'b B) -> bool { (**self).vx_lts(*o) } open spec fn vx_les(&self, o: &&'b B) -> bool { (**self).vx_les(*o) } }
// lexicographic order on strings, as an abstract total order
pub uninterp spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool;
pub open spec fn str_le(a: Seq<char>, b: Seq<char>) -> bool { a == b || str_lt(a, b) }
pub broadcast axiom fn ax_str_lt_total(a: Seq<char>, b: Seq<char>) ensures #[trigger] str_lt(a, b) ==> !str_lt(b, a) && a != b, !str_lt(a, b) ==> str_lt(b, a) || a == b;
pub axiom fn ax_str_lt_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures str_lt(a, b) && str_lt(b, c) ==> str_lt(a, c);
impl VxOrd<String> for String { open spec fn vx_lts(&self, o: &String) -> bool { str_lt(self@, o@) } open spec fn vx_les(&self, o: &String) -> bool { str_le(self@, o@) } }
impl VxOrd<str> for str { open spec fn vx_lts(&self, o: &str) -> bool { str_lt(self@, o@) } open spec fn vx_les(&self, o: &str) -> bool { str_le(self@, o@) } }
pub trait VxCmp<B: ?Sized> { fn vx_cmp(&self, o: &B) -> (r: core::cmp::Ordering) where Self: VxOrd<B>
   ensures r is Less == self.vx_lts(o), r is Greater == !self.vx_les(o); }
impl<A: ?Sized> VxCmp<A> for A { #[verifier::external_body] fn vx_cmp(&self, o: &A) -> (r: core::cmp::Ordering) where Self: VxOrd<A> { unimplemented!() } }

// ---- clone / default / conversions
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
''')
def cl(t,g=''): P(f'impl{g} VxClone for {t} {{ #[verifier::external_body] fn vx_clone(&self) -> (r: Self) {{ unimplemented!() }} }}\n')
for t in ints+['bool','String','()']: cl(t)
cl('Vec<T>','<T: VxClone>'); cl('Option<T>','<T: VxClone>'); cl('(A, B)','<A: VxClone, B: VxClone>'); cl('(A, B, C)','<A: VxClone, B: VxClone, C: VxClone>'); cl("&'a T","<'a, T: ?Sized>"); cl('Box<T>','<T: VxClone>'); cl('VxIter<T>','<T: VxClone>')
P('''
pub trait VxDefault: Sized { spec fn vx_is_default(r: Self) -> bool; fn vx_default() -> (r: Self) ensures Self::vx_is_default(r); }
''')
def df(t,b,g=''): P(f'impl{g} VxDefault for {t} {{ open spec fn vx_is_default(r: Self) -> bool {{ {b} }} #[verifier::external_body] fn vx_default() -> (r: Self) {{ unimplemented!() }} }}\n')
for t in ints: df(t,'r == 0')
df('bool','!r'); df('String','r@ == Seq::<char>::empty()'); df('Vec<T>','r@ == Seq::<T>::empty()','<T>'); df('Option<T>','r is None','<T>'); df('(A, B)','A::vx_is_default(r.0) && B::vx_is_default(r.1)','<A: VxDefault, B: VxDefault>')
P('''
pub trait VxFrom<A>: Sized { spec fn vx_from_spec(a: A, r: Self) -> bool; fn vx_from(a: A) -> (r: Self) ensures Self::vx_from_spec(a, r); }
impl<T> VxFrom<T> for T { open spec fn vx_from_spec(a: T, r: T) -> bool { r == a } #[verifier::external_body] fn vx_from(a: T) -> (r: T) { unimplemented!() } }
pub trait VxInto<B>: Sized { spec fn vx_into_spec(self, r: B) -> bool; fn vx_into(self) -> (r: B) ensures self.vx_into_spec(r); }
impl<A, B: VxFrom<A>> VxInto<B> for A { open spec fn vx_into_spec(self, r: B) -> bool { B::vx_from_spec(self, r) } #[verifier::external_body] fn vx_into(self) -> (r: B) { unimplemented!() } }
impl<'a> VxFrom<&'a str> for String { open spec fn vx_from_spec(a: &'a str, r: String) -> bool { r@ == a@ } #[verifier::external_body] fn vx_from(a: &'a str) -> (r: String) { unimplemented!() } }
impl<'a> VxFrom<&'a String> for String { open spec fn vx_from_spec(a: &'a String, r: String) -> bool { r == *a } #[verifier::external_body] fn vx_from(a: &'a String) -> (r: String) { unimplemented!() } }
''')
for a,b in [('u8','u32'),('u8','u64'),('u8','u128'),('u32','u64'),('u32','u128'),('u64','u128'),('u32','i64')]:
    P(f'impl VxFrom<{a}> for {b} {{ open spec fn vx_from_spec(a: {a}, r: {b}) -> bool {{ r as int == a as int }} #[verifier::external_body] fn vx_from(a: {a}) -> (r: {b}) {{ unimplemented!() }} }}\n')
P('''
pub trait VxDisplay { spec fn vx_disp(&self) -> Seq<char>; }
pub uninterp spec fn int_str(n: int) -> Seq<char>;
impl VxDisplay for str { open spec fn vx_disp(&self) -> Seq<char> { self@ } }
impl VxDisplay for String { open spec fn vx_disp(&self) -> Seq<char> { self@ } }
impl<'a, T: VxDisplay + ?Sized> VxDisplay for &'a T { open spec fn vx_disp(&self) -> Seq<char> { (**self).vx_disp() } }
''')
P('''// s is a decimal notation of n
pub uninterp spec fn parses_to(s: Seq<char>, n: int) -> bool;
pub broadcast axiom fn ax_parse_int(n: int, m: int) ensures #[trigger] parses_to(int_str(n), m) ==> m == n;
pub axiom fn ax_parse_unique(s: Seq<char>, n: int, m: int) ensures parses_to(s, n) && parses_to(s, m) ==> m == n;
pub trait VxFromStr: Sized { type Err; spec fn vx_fs(s: Seq<char>, r: Result<Self, Self::Err>) -> bool; }
pub trait VxParse { spec fn vx_ps(&self) -> Seq<char>; fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::Err>) ensures T::vx_fs(self.vx_ps(), r); }
impl VxParse for str { open spec fn vx_ps(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::Err>) { unimplemented!() } }
impl VxParse for String { open spec fn vx_ps(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::Err>) { unimplemented!() } }
''')
for t in ints: P(f'impl VxFromStr for {t} {{ type Err = crate::vxstd::num::ParseIntError; open spec fn vx_fs(s: Seq<char>, r: Result<{t}, crate::vxstd::num::ParseIntError>) -> bool {{ r is Ok ==> parses_to(s, r->Ok_0 as int) }} }}\n')
for t in ints: P(f'impl VxDisplay for {t} {{ open spec fn vx_disp(&self) -> Seq<char> {{ int_str(*self as int) }} }}\n')
P('''pub trait VxToString: VxDisplay { fn vx_to_string(&self) -> (r: String) ensures r@ == self.vx_disp(); }
impl<T: VxDisplay + ?Sized> VxToString for T { #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
pub trait VxToOwned { fn vx_to_owned(&self) -> (r: String); }
#[verifier::external_body]
pub struct VxFmt { s: String }
impl VxFmt {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn lit(self, s: &str) -> (r: Self) ensures r@ == self@ + s@ { unimplemented!() }
    #[verifier::external_body] pub fn arg<T: VxDisplay + ?Sized>(self, t: &T) -> (r: Self) ensures r@ == self@ + t.vx_disp() { unimplemented!() }
    #[verifier::external_body] pub fn dbg<T: ?Sized>(self, t: &T) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn done(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}

// ---- bytes and strings
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub trait VxAsRef<T: ?Sized> { spec fn vx_ar(&self) -> Seq<u8>; }
impl VxAsRef<[u8]> for [u8] { open spec fn vx_ar(&self) -> Seq<u8> { self@ } }
impl VxAsRef<[u8]> for Vec<u8> { open spec fn vx_ar(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VxAsRef<[u8]> for [u8; N] { open spec fn vx_ar(&self) -> Seq<u8> { self@ } }
impl VxAsRef<[u8]> for str { open spec fn vx_ar(&self) -> Seq<u8> { utf8(self@) } }
impl VxAsRef<[u8]> for String { open spec fn vx_ar(&self) -> Seq<u8> { utf8(self@) } }
impl<'a, T: VxAsRef<[u8]> + ?Sized> VxAsRef<[u8]> for &'a T { open spec fn vx_ar(&self) -> Seq<u8> { (**self).vx_ar() } }
// s split at every c, and the parts put together again
pub open spec fn splitc(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![s] } else { let r = splitc(s.skip(1), c); if s[0] == c { seq![Seq::<char>::empty()] + r } else { r.update(0, seq![s[0]] + r[0]) } } }
pub open spec fn joinc(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { v[0] + sep + joinc(v.skip(1), sep) } }
pub trait VxSlice<T> { spec fn vx_sl(&self) -> Seq<T>; fn vx_as_slice<'a>(&'a self) -> (r: &'a [T]) ensures r@ == self.vx_sl(); }
impl<T> VxSlice<T> for Vec<T> { open spec fn vx_sl(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_as_slice<'a>(&'a self) -> (r: &'a [T]) { unimplemented!() } }
impl<T, const N: usize> VxSlice<T> for [T; N] { open spec fn vx_sl(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_as_slice<'a>(&'a self) -> (r: &'a [T]) { unimplemented!() } }
pub trait VxStr {
    spec fn vx_sv(&self) -> Seq<char>;
    fn vx_as_bytes<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == utf8(self.vx_sv());
    fn vx_split<'a>(&'a self, c: char) -> (r: VxIter<&'a str>) ensures r@.map_values(|x: &str| x@) == splitc(self.vx_sv(), c);
    fn vx_split_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) ensures
        r is None ==> !self.vx_sv().contains(c),
        r is Some ==> !(r->0).0@.contains(c) && self.vx_sv() == (r->0).0@ + seq![c] + (r->0).1@;
}
impl VxStr for str { open spec fn vx_sv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_bytes<'a>(&'a self) -> (r: &'a [u8]) { unimplemented!() } #[verifier::external_body] fn vx_split<'a>(&'a self, c: char) -> (r: VxIter<&'a str>) { unimplemented!() } #[verifier::external_body] fn vx_split_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() } }
impl VxStr for String { open spec fn vx_sv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_bytes<'a>(&'a self) -> (r: &'a [u8]) { unimplemented!() } #[verifier::external_body] fn vx_split<'a>(&'a self, c: char) -> (r: VxIter<&'a str>) { unimplemented!() } #[verifier::external_body] fn vx_split_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) { unimplemented!() } }
pub open spec fn disps<T: VxDisplay>(s: Seq<T>) -> Seq<Seq<char>> { s.map_values(|x: T| x.vx_disp()) }
pub trait VxJoin { spec fn vx_js(&self) -> Seq<Seq<char>>; fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joinc(self.vx_js(), sep@); }
impl<T: VxDisplay> VxJoin for [T] { open spec fn vx_js(&self) -> Seq<Seq<char>> { disps(self@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
impl<T: VxDisplay> VxJoin for Vec<T> { open spec fn vx_js(&self) -> Seq<Seq<char>> { disps(self@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
// sub-slices (panics when out of range)
pub trait VxRng<T> { spec fn vx_rs(&self) -> Seq<T>; }
impl<T> VxRng<T> for Vec<T> { open spec fn vx_rs(&self) -> Seq<T> { self@ } }
impl<T> VxRng<T> for [T] { open spec fn vx_rs(&self) -> Seq<T> { self@ } }
impl<T, const N: usize> VxRng<T> for [T; N] { open spec fn vx_rs(&self) -> Seq<T> { self@ } }
impl<'a, T, A: VxRng<T> + ?Sized> VxRng<T> for &'a A { open spec fn vx_rs(&self) -> Seq<T> { (**self).vx_rs() } }
#[verifier::external_body] pub fn vx_rng<'a, T, A: VxRng<T> + ?Sized>(a: &'a A, lo: usize, hi: usize) -> (r: &'a [T]) ensures lo <= hi <= a.vx_rs().len(), r@ == a.vx_rs().subrange(lo as int, hi as int) { unimplemented!() }
// byte strings in lexicographic order
pub open spec fn bytes_le(a: Seq<u8>, b: Seq<u8>) -> bool decreases a.len() { if a.len() == 0 { true } else if b.len() == 0 { false } else if a[0] != b[0] { a[0] < b[0] } else { bytes_le(a.skip(1), b.skip(1)) } }
pub trait VxPair32 { 
    spec fn vx_p(&self) -> Seq<[u8; 32]>;
    fn vx_sort_unstable(&mut self) ensures final(self).vx_p() == if bytes_le(old(self).vx_p()[0]@, old(self).vx_p()[1]@) { old(self).vx_p() } else { seq![old(self).vx_p()[1], old(self).vx_p()[0]] };
    fn vx_sort(&mut self) ensures final(self).vx_p() == if bytes_le(old(self).vx_p()[0]@, old(self).vx_p()[1]@) { old(self).vx_p() } else { seq![old(self).vx_p()[1], old(self).vx_p()[0]] };
    fn vx_concat(&self) -> (r: Vec<u8>) ensures r@ == self.vx_p()[0]@ + self.vx_p()[1]@;
}
impl VxPair32 for [[u8; 32]; 2] { open spec fn vx_p(&self) -> Seq<[u8; 32]> { self@ }
    #[verifier::external_body] fn vx_sort_unstable(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vx_sort(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vx_concat(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl<'a, const N: usize> VxTryInto<[u8; N]> for &'a [u8] { type E = VxTryErr; open spec fn vx_try_spec(a: &'a [u8], r: Result<[u8; N], VxTryErr>) -> bool { (r is Ok) == (a@.len() == N) && (r is Ok ==> r->Ok_0@ == a@) } #[verifier::external_body] fn vx_try_into(self) -> (r: Result<[u8; N], VxTryErr>) { unimplemented!() } }
impl<const N: usize> VxTryInto<[u8; N]> for Vec<u8> { type E = VxTryErr; open spec fn vx_try_spec(a: Vec<u8>, r: Result<[u8; N], VxTryErr>) -> bool { (r is Ok) == (a@.len() == N) && (r is Ok ==> r->Ok_0@ == a@) } #[verifier::external_body] fn vx_try_into(self) -> (r: Result<[u8; N], VxTryErr>) { unimplemented!() } }
#[verifier::external_body] pub struct VxTryErr { s: String }

// ---- Option / Result
pub trait VxOption<T>: Sized {
    spec fn vx_o(&self) -> Option<T>;
    fn vx_unwrap(self) -> (r: T) ensures self.vx_o() == Some(r);
    fn vx_expect(self, m: &str) -> (r: T) ensures self.vx_o() == Some(r);
    fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == match self.vx_o() { Some(x) => x, None => d };
    fn vx_unwrap_or_default(self) -> (r: T) where T: VxDefault ensures match self.vx_o() { Some(x) => r == x, None => T::vx_is_default(r) };
    fn vx_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> (r: T) requires self.vx_o() is None ==> call_requires(f, ()) ensures match self.vx_o() { Some(x) => r == x, None => call_ensures(f, (), r) };
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) requires self.vx_o() is Some ==> call_requires(f, (self.vx_o()->0,)) ensures match self.vx_o() { Some(x) => r is Some && call_ensures(f, (x,), r->0), None => r is None };
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) requires self.vx_o() is Some ==> call_requires(f, (self.vx_o()->0,)) ensures match self.vx_o() { Some(x) => call_ensures(f, (x,), r), None => r == d };
    fn vx_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>) requires self.vx_o() is Some ==> call_requires(f, (self.vx_o()->0,)) ensures match self.vx_o() { Some(x) => call_ensures(f, (x,), r), None => r is None };
    fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) requires self.vx_o() is Some ==> call_requires(f, (self.vx_o()->0,)) ensures match self.vx_o() { Some(x) => call_ensures(f, (x,), r), None => !r };
    fn vx_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>) requires self.vx_o() is Some ==> call_requires(f, (&(self.vx_o()->0),)) ensures match self.vx_o() { Some(x) => (r is Some ==> r == Some(x) && call_ensures(f, (&x,), true)) && (r is None ==> call_ensures(f, (&x,), false)), None => r is None };
    fn vx_ok_or<E>(self, e: E) -> (r: Result<T, E>) ensures match self.vx_o() { Some(x) => r == Ok::<T, E>(x), None => r == Err::<T, E>(e) };
    fn vx_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> (r: Result<T, E>) requires self.vx_o() is None ==> call_requires(f, ()) ensures match self.vx_o() { Some(x) => r == Ok::<T, E>(x), None => r is Err };
    fn vx_or(self, d: Option<T>) -> (r: Option<T>) ensures r == match self.vx_o() { Some(x) => Some(x), None => d };
    fn vx_as_ref(&self) -> (r: Option<&T>) ensures match self.vx_o() { Some(x) => r == Some(&x), None => r is None };
    fn vx_as_mut(&mut self) -> (r: Option<&mut T>)
        ensures match old(self).vx_o() { None => r is None && final(self).vx_o() is None, Some(x) => r is Some && *(r->0) == x && final(self).vx_o() == Some(*final(r->0)) };
    fn vx_cloned_opt(&self) -> (r: Option<T>) where T: VxClone ensures r == self.vx_o();
}
impl<T> VxOption<T> for Option<T> {
    open spec fn vx_o(&self) -> Option<T> { *self }
''')
for sig in ['vx_unwrap(self) -> (r: T)','vx_expect(self, m: &str) -> (r: T)','vx_unwrap_or(self, d: T) -> (r: T)','vx_unwrap_or_default(self) -> (r: T) where T: VxDefault','vx_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> (r: T)','vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)','vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U)','vx_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>)','vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)','vx_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>)','vx_ok_or<E>(self, e: E) -> (r: Result<T, E>)','vx_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> (r: Result<T, E>)','vx_or(self, d: Option<T>) -> (r: Option<T>)','vx_as_ref(&self) -> (r: Option<&T>)','vx_as_mut(&mut self) -> (r: Option<&mut T>)','vx_cloned_opt(&self) -> (r: Option<T>) where T: VxClone']:
    P(f'    #[verifier::external_body] fn {sig} {{ unimplemented!() }}\n')
P('''}
pub trait VxOptTranspose<T, E>: Sized { spec fn vx_ot(&self) -> Option<Result<T, E>>; fn vx_transpose(self) -> (r: Result<Option<T>, E>) ensures match self.vx_ot() { None => r == Ok::<Option<T>, E>(None), Some(Ok(x)) => r == Ok::<Option<T>, E>(Some(x)), Some(Err(e)) => r == Err::<Option<T>, E>(e) }; }
impl<T, E> VxOptTranspose<T, E> for Option<Result<T, E>> { open spec fn vx_ot(&self) -> Option<Result<T, E>> { *self } #[verifier::external_body] fn vx_transpose(self) -> (r: Result<Option<T>, E>) { unimplemented!() } }
pub trait VxOptDeref { fn vx_as_deref<'a>(&'a self) -> (r: Option<&'a str>) ensures (r is Some) == (self.vx_os() is Some), r is Some ==> r->0@ == self.vx_os()->0@; spec fn vx_os(&self) -> Option<String>; }
impl VxOptDeref for Option<String> { open spec fn vx_os(&self) -> Option<String> { *self } #[verifier::external_body] fn vx_as_deref<'a>(&'a self) -> (r: Option<&'a str>) { unimplemented!() } }
pub trait VxOptCloned<T> { spec fn vx_oc(&self) -> Option<T>; fn vx_cloned(self) -> (r: Option<T>) ensures r == self.vx_oc(); fn vx_copied(self) -> (r: Option<T>) ensures r == self.vx_oc(); }
impl<'a, T: VxClone> VxOptCloned<T> for Option<&'a T> { open spec fn vx_oc(&self) -> Option<T> { match *self { Some(x) => Some(*x), None => None } } #[verifier::external_body] fn vx_cloned(self) -> (r: Option<T>) { unimplemented!() } #[verifier::external_body] fn vx_copied(self) -> (r: Option<T>) { unimplemented!() } }
pub trait VxResult<T, E>: Sized {
    spec fn vx_rr(&self) -> Result<T, E>;
    fn vx_unwrap(self) -> (r: T) ensures self.vx_rr() == Ok::<T, E>(r);
    fn vx_expect(self, m: &str) -> (r: T) ensures self.vx_rr() == Ok::<T, E>(r);
    fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == match self.vx_rr() { Ok(x) => x, Err(_) => d };
    fn vx_unwrap_or_default(self) -> (r: T) where T: VxDefault ensures match self.vx_rr() { Ok(x) => r == x, Err(_) => T::vx_is_default(r) };
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U, E>) requires self.vx_rr() is Ok ==> call_requires(f, (self.vx_rr()->Ok_0,)) ensures match self.vx_rr() { Ok(x) => r is Ok && call_ensures(f, (x,), r->Ok_0), Err(e) => r == Err::<U, E>(e) };
    fn vx_and_then<U, F: FnOnce(T) -> Result<U, E>>(self, f: F) -> (r: Result<U, E>) requires self.vx_rr() is Ok ==> call_requires(f, (self.vx_rr()->Ok_0,)) ensures match self.vx_rr() { Ok(x) => call_ensures(f, (x,), r), Err(e) => r == Err::<U, E>(e) };
    fn vx_map_err<G, F: FnOnce(E) -> G>(self, f: F) -> (r: Result<T, G>) requires self.vx_rr() is Err ==> call_requires(f, (self.vx_rr()->Err_0,)) ensures match self.vx_rr() { Ok(x) => r == Ok::<T, G>(x), Err(e) => r is Err };
    fn vx_ok(self) -> (r: Option<T>) ensures r == match self.vx_rr() { Ok(x) => Some(x), Err(_) => None };
}
impl<T, E> VxResult<T, E> for Result<T, E> {
    open spec fn vx_rr(&self) -> Result<T, E> { *self }
''')
for sig in ['vx_unwrap(self) -> (r: T)','vx_expect(self, m: &str) -> (r: T)','vx_unwrap_or(self, d: T) -> (r: T)','vx_unwrap_or_default(self) -> (r: T) where T: VxDefault','vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U, E>)','vx_and_then<U, F: FnOnce(T) -> Result<U, E>>(self, f: F) -> (r: Result<U, E>)','vx_map_err<G, F: FnOnce(E) -> G>(self, f: F) -> (r: Result<T, G>)','vx_ok(self) -> (r: Option<T>)']:
    P(f'    #[verifier::external_body] fn {sig} {{ unimplemented!() }}\n')
P('''}

// ---- iterators: an iterator over already computed values
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VxIter<T> { x: Vec<T> }
pub open spec fn vx_flat<T>(s: Seq<Option<T>>) -> Seq<T> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let r = vx_flat(s.drop_last()); match s.last() { Some(x) => r.push(x), None => r } } }
// r is a subsequence of s: kept are exactly the indices with keep(i)
pub open spec fn vx_kept<T>(s: Seq<T>, keep: Seq<bool>) -> Seq<T> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let r = vx_kept(s.drop_last(), keep.drop_last()); if keep.last() { r.push(s.last()) } else { r } } }
impl<T> VxIter<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn vx_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn vx_at(&self, i: usize) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn vx_map<U, F: FnMut(T) -> U>(self, f: F) -> (r: VxIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), r@[i]) { unimplemented!() }
    #[verifier::external_body] pub fn vx_filter<F: FnMut(&T) -> bool>(self, f: F) -> (r: VxIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&(#[trigger] self@[i]),)),
        ensures exists|keep: Seq<bool>| keep.len() == self@.len() && r@ == #[trigger] vx_kept(self@, keep) && forall|i: int| #![trigger self@[i]] #![trigger keep[i]] 0 <= i < self@.len() ==> call_ensures(f, (&self@[i],), keep[i]) { unimplemented!() }
    #[verifier::external_body] pub fn vx_position<F: FnMut(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures match r { Some(i) => i < self@.len() && call_ensures(f, (self@[i as int],), true) && forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] self@[j],), false),
            None => forall|j: int| 0 <= j < self@.len() ==> call_ensures(f, (#[trigger] self@[j],), false) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_find<F: FnMut(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&(#[trigger] self@[i]),)),
        ensures match r { Some(x) => exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == x && call_ensures(f, (&self@[i],), true) && forall|j: int| 0 <= j < i ==> call_ensures(f, (&(#[trigger] self@[j]),), false),
            None => forall|j: int| 0 <= j < self@.len() ==> call_ensures(f, (&(#[trigger] self@[j]),), false) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_all<F: FnMut(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), true), !r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), false) { unimplemented!() }
    #[verifier::external_body] pub fn vx_any<F: FnMut(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures !r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), false), r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), true) { unimplemented!() }
    #[verifier::external_body] pub fn vx_chain<S: VxSrc<VxItem = T>>(self, o: S) -> (r: VxIter<T>) ensures r@ == self@ + o.vx_seq() { unimplemented!() }
    #[verifier::external_body] pub fn vx_enumerate(self) -> (r: VxIter<(usize, T)>) ensures self@.len() <= usize::MAX, r@.len() == self@.len(), forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < self@.len() ==> r@[i] == (i as usize, self@[i]) { unimplemented!() }
    #[verifier::external_body] pub fn vx_zip<S: VxSrc>(self, o: S) -> (r: VxIter<(T, S::VxItem)>) ensures r@.len() == if self@.len() <= o.vx_seq().len() { self@.len() } else { o.vx_seq().len() }, forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < r@.len() ==> r@[i] == (self@[i], o.vx_seq()[i]) { unimplemented!() }
    #[verifier::external_body] pub fn vx_rev(self) -> (r: VxIter<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body] pub fn vx_take(self, n: usize) -> (r: VxIter<T>) ensures r@ == self@.take(if n <= self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
    #[verifier::external_body] pub fn vx_skip(self, n: usize) -> (r: VxIter<T>) ensures r@ == self@.skip(if n <= self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
    #[verifier::external_body] pub fn vx_fold<B, F: FnMut(B, T) -> B>(self, b: B, f: F) -> (r: B)
        requires forall|x: B, i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (x, self@[i])),
        ensures exists|acc: Seq<B>| #[trigger] acc.len() == self@.len() + 1 && acc[0] == b && acc.last() == r && forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> call_ensures(f, (acc[i], self@[i]), acc[i + 1]) { unimplemented!() }
    #[verifier::external_body] pub fn vx_try_fold<B, E, F: FnMut(B, T) -> Result<B, E>>(self, b: B, f: F) -> (r: Result<B, E>)
        requires forall|x: B, i: int| 0 <= i < self@.len() ==> #[trigger] call_requires(f, (x, self@[i])),
        ensures r is Ok ==> exists|acc: Seq<B>| #[trigger] acc.len() == self@.len() + 1 && acc[0] == b && acc.last() == r->Ok_0 && forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> call_ensures(f, (acc[i], self@[i]), Ok::<B, E>(acc[i + 1])),
            r is Err ==> exists|x: B, i: int| #![trigger call_ensures(f, (x, self@[i]), Err::<B, E>(r->Err_0))] 0 <= i < self@.len() && call_ensures(f, (x, self@[i]), Err::<B, E>(r->Err_0)) { unimplemented!() }
    #[verifier::external_body] pub fn vx_collect<C: VxCollect<T>>(self) -> (r: C) ensures C::collects(self@, r) { unimplemented!() }
    #[verifier::external_body] pub fn vx_sum<S: VxSum<T>>(self) -> (r: S) ensures S::vx_sums(self@, r) { unimplemented!() }
    #[verifier::external_body] pub fn vx_count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn vx_next(&mut self) -> (r: Option<T>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body] pub fn vx_last(self) -> (r: Option<T>) ensures r == if self@.len() == 0 { None } else { Some(self@.last()) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_nth(self, n: usize) -> (r: Option<T>) ensures r == if n < self@.len() { Some(self@[n as int]) } else { None } { unimplemented!() }
    #[verifier::external_body] pub fn vx_filter_map<U, F: FnMut(T) -> Option<U>>(self, f: F) -> (r: VxIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures exists|m: Seq<Option<U>>| m.len() == self@.len() && r@ == #[trigger] vx_flat(m) && forall|i: int| #![trigger self@[i]] #![trigger m[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), m[i]) { unimplemented!() }
    #[verifier::external_body] pub fn vx_flat_map<S: VxSrc, F: FnMut(T) -> S>(self, f: F) -> (r: VxIter<S::VxItem>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures exists|m: Seq<S>| m.len() == self@.len() && r@ == #[trigger] vx_join(m) && forall|i: int| #![trigger self@[i]] #![trigger m[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), m[i]) { unimplemented!() }
}
pub open spec fn vx_join<S: VxSrc>(m: Seq<S>) -> Seq<S::VxItem> decreases m.len() { if m.len() == 0 { Seq::empty() } else { vx_join(m.drop_last()) + m.last().vx_seq() } }
impl<A, B> VxIter<(A, B)> {
    #[verifier::external_body] pub fn vx_unzip<CA: VxCollect<A>, CB: VxCollect<B>>(self) -> (r: (CA, CB)) ensures CA::collects(Seq::new(self@.len(), |i: int| self@[i].0), r.0), CB::collects(Seq::new(self@.len(), |i: int| self@[i].1), r.1) { unimplemented!() }
}
pub trait VxFlatten<T>: Sized { spec fn vx_fl(&self) -> Seq<T>; fn vx_flatten(self) -> (r: VxIter<T>) ensures r@ == self.vx_fl(); }
impl<T> VxFlatten<T> for VxIter<Option<T>> { open spec fn vx_fl(&self) -> Seq<T> { vx_flat(self@) } #[verifier::external_body] fn vx_flatten(self) -> (r: VxIter<T>) { unimplemented!() } }
impl<T> VxFlatten<T> for VxIter<Vec<T>> { open spec fn vx_fl(&self) -> Seq<T> { vx_join(self@) } #[verifier::external_body] fn vx_flatten(self) -> (r: VxIter<T>) { unimplemented!() } }
pub trait VxIterCloned<T>: Sized { spec fn vx_ics(&self) -> Seq<T>; fn vx_cloned(self) -> (r: VxIter<T>) ensures r@ == self.vx_ics(); fn vx_copied(self) -> (r: VxIter<T>) ensures r@ == self.vx_ics(); }
impl<'a, T> VxIterCloned<T> for VxIter<&'a T> { open spec fn vx_ics(&self) -> Seq<T> { Seq::new(self@.len(), |i: int| *self@[i]) } #[verifier::external_body] fn vx_cloned(self) -> (r: VxIter<T>) { unimplemented!() } #[verifier::external_body] fn vx_copied(self) -> (r: VxIter<T>) { unimplemented!() } }

pub trait VxTryInto<T>: Sized { type E; spec fn vx_try_spec(a: Self, r: Result<T, Self::E>) -> bool; fn vx_try_into(self) -> (r: Result<T, Self::E>) ensures Self::vx_try_spec(self, r); }
pub trait VxSum<T>: Sized { spec fn vx_sums(s: Seq<T>, r: Self) -> bool; }
pub trait VxCollect<T>: Sized { spec fn collects(s: Seq<T>, r: Self) -> bool; }
impl<T> VxCollect<T> for Vec<T> { open spec fn collects(s: Seq<T>, r: Self) -> bool { r@ == s } }
impl<T, E, C: VxCollect<T>> VxCollect<Result<T, E>> for Result<C, E> { open spec fn collects(s: Seq<Result<T, E>>, r: Self) -> bool {
    match r { Ok(v) => (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok) && C::collects(Seq::new(s.len(), |i: int| s[i]->Ok_0), v),
        Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<T, E>(e) } } }
impl<T, C: VxCollect<T>> VxCollect<Option<T>> for Option<C> { open spec fn collects(s: Seq<Option<T>>, r: Self) -> bool {
    match r { Some(v) => (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some) && C::collects(Seq::new(s.len(), |i: int| s[i]->0), v),
        None => exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is None } } }
pub trait VxSrc: Sized { type VxItem; spec fn vx_seq(&self) -> Seq<Self::VxItem>; fn vx_into_iter(self) -> (r: VxIter<Self::VxItem>) ensures r@ == self.vx_seq(); }
impl<T> VxSrc for VxIter<T> { type VxItem = T; open spec fn vx_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() } }
impl<T> VxSrc for Vec<T> { type VxItem = T; open spec fn vx_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() } }
impl<T, const N: usize> VxSrc for [T; N] { type VxItem = T; open spec fn vx_seq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() } }
impl<'a, T> VxSrc for &'a Vec<T> { type VxItem = &'a T; open spec fn vx_seq(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() } }
impl<'a, T> VxSrc for &'a [T] { type VxItem = &'a T; open spec fn vx_seq(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() } }
impl<T> VxSrc for Option<T> { type VxItem = T; open spec fn vx_seq(&self) -> Seq<T> { match *self { Some(x) => seq![x], None => Seq::empty() } } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() } }
''')
for t in ['u32','u64','usize']:
    P(f'impl VxSrc for core::ops::Range<{t}> {{ type VxItem = {t}; open spec fn vx_seq(&self) -> Seq<{t}> {{ Seq::new(if self.end >= self.start {{ (self.end - self.start) as nat }} else {{ 0 }}, |i: int| (self.start + i) as {t}) }} #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<{t}>) {{ unimplemented!() }} }}\n')
P('''
pub trait VxRef<T> { spec fn vx_rseq(&self) -> Seq<T>;
    fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>) ensures r@.len() == self.vx_rseq().len(), forall|i: int| #![trigger r@[i]] #![trigger self.vx_rseq()[i]] 0 <= i < r@.len() ==> *(r@[i]) == self.vx_rseq()[i];
    fn vx_first<'a>(&'a self) -> (r: Option<&'a T>) ensures self.vx_rseq().len() == 0 ==> r is None, self.vx_rseq().len() > 0 ==> r is Some && *(r->0) == self.vx_rseq()[0];
    fn vx_last<'a>(&'a self) -> (r: Option<&'a T>) ensures self.vx_rseq().len() == 0 ==> r is None, self.vx_rseq().len() > 0 ==> r is Some && *(r->0) == self.vx_rseq().last();
    fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vx_rseq();
}
impl<T> VxRef<T> for Vec<T> { open spec fn vx_rseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_first<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_last<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T> VxRef<T> for [T] { open spec fn vx_rseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_first<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_last<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
pub trait VxVecMut<T> {
    spec fn vx_vm(&self) -> Seq<T>;
    fn vx_get_mut<'a>(&'a mut self, i: usize) -> (r: Option<&'a mut T>)
        ensures old(self).vx_vm().len() <= i ==> r is None && final(self).vx_vm() == old(self).vx_vm(),
            old(self).vx_vm().len() > i ==> r is Some && *(r->0) == old(self).vx_vm()[i as int] && final(self).vx_vm() == old(self).vx_vm().update(i as int, *final(r->0));
    fn vx_retain<F: FnMut(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).vx_vm().len() ==> call_requires(f, (&(#[trigger] old(self).vx_vm()[i]),)),
        ensures exists|keep: Seq<bool>| keep.len() == old(self).vx_vm().len() && final(self).vx_vm() == #[trigger] vx_kept(old(self).vx_vm(), keep) && forall|i: int| #![trigger old(self).vx_vm()[i]] #![trigger keep[i]] 0 <= i < old(self).vx_vm().len() ==> call_ensures(f, (&old(self).vx_vm()[i],), keep[i]);
    fn vx_sort_by<F: FnMut(&T, &T) -> core::cmp::Ordering>(&mut self, f: F)
        requires forall|a: &T, b: &T| #[trigger] call_requires(f, (a, b)),
        ensures final(self).vx_vm().to_multiset() == old(self).vx_vm().to_multiset(), final(self).vx_vm().len() == old(self).vx_vm().len(), vx_perm(old(self).vx_vm(), final(self).vx_vm()), forall|i: int, j: int| 0 <= i < j < final(self).vx_vm().len() ==> vx_cmp_le(f, #[trigger] final(self).vx_vm()[i], #[trigger] final(self).vx_vm()[j]);
    fn vx_reverse(&mut self) ensures final(self).vx_vm() == old(self).vx_vm().reverse();
    fn vx_sort(&mut self) where T: VxOrd<T> ensures forall|i: int, j: int| #![trigger final(self).vx_vm()[i], final(self).vx_vm()[j]] 0 <= i < j < final(self).vx_vm().len() ==> final(self).vx_vm()[i].vx_les(&final(self).vx_vm()[j]), final(self).vx_vm().to_multiset() == old(self).vx_vm().to_multiset(), final(self).vx_vm().len() == old(self).vx_vm().len(), vx_perm(old(self).vx_vm(), final(self).vx_vm());
    fn vx_extend<S: VxSrc<VxItem = T>>(&mut self, s: S) ensures final(self).vx_vm() == old(self).vx_vm() + s.vx_seq();
}
// a comparison function may put a before b
pub open spec fn vx_cmp_le<T, F: FnMut(&T, &T) -> core::cmp::Ordering>(f: F, a: T, b: T) -> bool { exists|o: core::cmp::Ordering| #[trigger] call_ensures(f, (&a, &b), o) && !(o is Greater) }
// b is a permutation of a
pub open spec fn vx_perm<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && exists|p: Seq<int>| #[trigger] vx_perm_by(a, b, p) }
pub open spec fn vx_perm_by<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>) -> bool { p.len() == a.len() && b.len() == a.len() && (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < p.len()) && (forall|i: int, j: int| 0 <= i < j < p.len() ==> p[i] != p[j]) && (forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[p[i]]) }
impl<T> VxVecMut<T> for Vec<T> { open spec fn vx_vm(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_get_mut<'a>(&'a mut self, i: usize) -> (r: Option<&'a mut T>) { unimplemented!() }
    #[verifier::external_body] fn vx_retain<F: FnMut(&T) -> bool>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body] fn vx_sort_by<F: FnMut(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body] fn vx_sort(&mut self) where T: VxOrd<T> { unimplemented!() }
    #[verifier::external_body] fn vx_reverse(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vx_extend<S: VxSrc<VxItem = T>>(&mut self, s: S) { unimplemented!() } }
@@MORE@@}
pub mod vxstd {
    use vstd::prelude::*;
    pub mod str { pub trait FromStr {} }
    pub mod string { pub use std::string::String; }
    pub mod vec { pub struct IntoIter<T> { pub x: T } }
    pub mod ops { pub use core::ops::Range; pub trait Deref {} pub trait DerefMut {} pub trait Add {} pub trait Sub {} pub trait Mul {} pub trait Div {} }
    pub mod cmp { @@CMP@@    pub mod convert { pub trait TryFrom {} }
    pub mod iter { pub trait FromIterator {} }
    pub mod fmt { pub trait Display {} pub trait Debug {} }
    pub mod num { #[verifier::external_body] pub struct ParseIntError { s: u8 } impl crate::vx::VxDisplay for ParseIntError { uninterp spec fn vx_disp(&self) -> vstd::prelude::Seq<char>; } }
    pub mod collections { pub use super::BTreeMap; pub use super::BTreeSet; pub use super::HashSet; pub use super::BTreeMap as HashMap; }
    pub use crate::vxmap::*;
}
pub mod vxmap {
    use vstd::prelude::*;
    use crate::vx::*;
    pub trait VxKey { type V; spec fn vx_k(&self) -> Self::V; }
    impl VxKey for String { type V = Seq<char>; open spec fn vx_k(&self) -> Seq<char> { self@ } }
    impl VxKey for str { type V = Seq<char>; open spec fn vx_k(&self) -> Seq<char> { self@ } }
    impl VxKey for u64 { type V = u64; open spec fn vx_k(&self) -> u64 { *self } }
    impl<'a, T: VxKey + ?Sized> VxKey for &'a T { type V = T::V; open spec fn vx_k(&self) -> T::V { (**self).vx_k() } }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::reject_recursive_types(V)]
    pub struct BTreeMap<K: VxKey, V> { x: Vec<(K, V)> }
    impl<K: VxKey, V> BTreeMap<K, V> {
        pub uninterp spec fn view(&self) -> Map<K::V, V>;
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.vx_k(), v), r == if old(self)@.dom().contains(k.vx_k()) { Some(old(self)@[k.vx_k()]) } else { None } { unimplemented!() }
        #[verifier::external_body] pub fn get<Q: VxKey<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>) ensures r is Some == self@.dom().contains(k.vx_k()), r is Some ==> *(r->0) == self@[k.vx_k()] { unimplemented!() }
        #[verifier::external_body] pub fn contains_key<Q: VxKey<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k.vx_k()) { unimplemented!() }
        #[verifier::external_body] pub fn vx_get_mut<'a, Q: VxKey<V = K::V> + ?Sized>(&'a mut self, k: &Q) -> (r: Option<&'a mut V>)
            ensures !old(self)@.dom().contains(k.vx_k()) ==> r is None && final(self)@ == old(self)@,
                old(self)@.dom().contains(k.vx_k()) ==> r is Some && *(r->0) == old(self)@[k.vx_k()] && final(self)@ == old(self)@.insert(k.vx_k(), *final(r->0)) { unimplemented!() }
        #[verifier::external_body] pub fn remove<Q: VxKey<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k.vx_k()), r == if old(self)@.dom().contains(k.vx_k()) { Some(old(self)@[k.vx_k()]) } else { None } { unimplemented!() }
    }
    // entries collected in order, later ones replacing earlier ones
    pub open spec fn mapof<K: VxKey, V>(s: Seq<(K, V)>) -> Map<K::V, V> decreases s.len() { if s.len() == 0 { Map::empty() } else { mapof(s.drop_last()).insert(s.last().0.vx_k(), s.last().1) } }
    impl<K: VxKey, V> VxCollect<(K, V)> for BTreeMap<K, V> { open spec fn collects(s: Seq<(K, V)>, r: Self) -> bool { r@ == mapof::<K, V>(s) } }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    pub struct HashSet<K: VxKey> { x: Vec<K> }
    impl<K: VxKey> HashSet<K> {
        pub uninterp spec fn view(&self) -> Set<K::V>;
        pub uninterp spec fn order(&self) -> Seq<K>;
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K::V>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.vx_k()), r == !old(self)@.contains(k.vx_k()) { unimplemented!() }
    }
    // the elements in an unspecified order, each once
    pub open spec fn vx_keysof<K: VxKey>(s: Seq<K>) -> Seq<K::V> { s.map_values(|k: K| k.vx_k()) }
    pub broadcast axiom fn ax_hashset<K: VxKey>(s: HashSet<K>) ensures #[trigger] vx_keysof(s.order()).to_set() == s@, vx_keysof(s.order()).no_duplicates();
    impl<K: VxKey> VxCollect<K> for BTreeSet<K> { open spec fn collects(s: Seq<K>, r: Self) -> bool { r@ == s.map_values(|k: K| k.vx_k()).to_set() } }
    impl<K: VxKey> VxCollect<K> for HashSet<K> { open spec fn collects(s: Seq<K>, r: Self) -> bool { r@ == s.map_values(|k: K| k.vx_k()).to_set() } }
    impl<K: VxKey> VxSrc for HashSet<K> { type VxItem = K; open spec fn vx_seq(&self) -> Seq<K> { self.order() } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<K>) { unimplemented!() } }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    pub struct BTreeSet<K: VxKey> { x: Vec<K> }
    impl<K: VxKey> BTreeSet<K> {
        pub uninterp spec fn view(&self) -> Set<K::V>;
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K::V>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.vx_k()), r == !old(self)@.contains(k.vx_k()) { unimplemented!() }
    }
@@MAPS@@}
}
''')
open('/verif/verus/shim/vx.rs','w').write(''.join(o).replace('@@MORE@@', MORE_VX).replace('@@CMP@@', CMP).replace('@@MAPS@@', MAPS))
