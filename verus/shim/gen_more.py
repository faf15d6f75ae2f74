# further std contracts, used by gen_vx.py
MORE_VX = r'''
// ---- further parts of std, for code that changes
pub uninterp spec fn str_fn(k: int, s: Seq<char>) -> Seq<char>;
pub uninterp spec fn str_fn2(k: int, s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub uninterp spec fn str_rel(k: int, s: Seq<char>, a: Seq<char>) -> bool;
pub open spec fn str_has(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) =~= p }
pub open spec fn str_pre(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) =~= p }
pub open spec fn str_suf(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) =~= p }
pub trait VxPat { spec fn vx_pat(&self) -> Seq<char>; }
impl VxPat for char { open spec fn vx_pat(&self) -> Seq<char> { seq![*self] } }
impl VxPat for str { open spec fn vx_pat(&self) -> Seq<char> { self@ } }
impl VxPat for String { open spec fn vx_pat(&self) -> Seq<char> { self@ } }
impl<'a, P: VxPat + ?Sized> VxPat for &'a P { open spec fn vx_pat(&self) -> Seq<char> { (**self).vx_pat() } }
pub trait VxStrMore {
    spec fn vx_sw(&self) -> Seq<char>;
'''
strm = [
 ('vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool)', 'r == str_pre(self.vx_sw(), p.vx_pat())'),
 ('vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool)', 'r == str_suf(self.vx_sw(), p.vx_pat())'),
 ('vx_contains<P: VxPat>(&self, p: P) -> (r: bool)', 'r == str_has(self.vx_sw(), p.vx_pat())'),
 ('vx_to_lowercase(&self) -> (r: String)', 'r@ == str_fn(1, self.vx_sw())'),
 ('vx_to_uppercase(&self) -> (r: String)', 'r@ == str_fn(2, self.vx_sw())'),
 ('vx_to_ascii_lowercase(&self) -> (r: String)', 'r@ == str_fn(3, self.vx_sw())'),
 ('vx_to_ascii_uppercase(&self) -> (r: String)', 'r@ == str_fn(4, self.vx_sw())'),
 ("vx_trim<'a>(&'a self) -> (r: &'a str)", 'r@ == str_fn(5, self.vx_sw())'),
 ("vx_trim_start<'a>(&'a self) -> (r: &'a str)", 'r@ == str_fn(6, self.vx_sw())'),
 ("vx_trim_end<'a>(&'a self) -> (r: &'a str)", 'r@ == str_fn(7, self.vx_sw())'),
 ("vx_trim_start_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str)", 'r@ == str_fn2(8, self.vx_sw(), p.vx_pat(), Seq::empty())'),
 ("vx_trim_end_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str)", 'r@ == str_fn2(9, self.vx_sw(), p.vx_pat(), Seq::empty())'),
 ("vx_strip_prefix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>)", 'r is Some == str_pre(self.vx_sw(), p.vx_pat()), r is Some ==> r->0@ == self.vx_sw().skip(p.vx_pat().len() as int)'),
 ("vx_strip_suffix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>)", 'r is Some == str_suf(self.vx_sw(), p.vx_pat()), r is Some ==> r->0@ == self.vx_sw().take(self.vx_sw().len() - p.vx_pat().len())'),
 ('vx_replace<P: VxPat>(&self, p: P, to: &str) -> (r: String)', 'r@ == str_fn2(10, self.vx_sw(), p.vx_pat(), to@)'),
 ("vx_rsplit_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>)", 'r is None ==> !self.vx_sw().contains(c), r is Some ==> !(r->0).1@.contains(c) && self.vx_sw() == (r->0).0@ + seq![c] + (r->0).1@'),
 ('vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool)', 'r == (str_fn(3, self.vx_sw()) == str_fn(3, o@))'),
 ('vx_chars(&self) -> (r: VxIter<char>)', 'r@ == self.vx_sw()'),
 ('vx_bytes(&self) -> (r: VxIter<u8>)', 'r@ == utf8(self.vx_sw())'),
 ('vx_repeat(&self, n: usize) -> (r: String)', 'n == 1 ==> r@ == self.vx_sw(), n == 0 ==> r@ == Seq::<char>::empty()'),
]
for s, e in strm: MORE_VX += f'    fn {s} ensures {e};\n'
MORE_VX += '}\n'
for t in ['str', 'String']:
    MORE_VX += f'impl VxStrMore for {t} {{ open spec fn vx_sw(&self) -> Seq<char> {{ self@ }} ' + ' '.join(f'#[verifier::external_body] fn {s} {{ unimplemented!() }}' for s, e in strm) + ' }\n'
MORE_VX += r'''
impl VxCollect<char> for String { open spec fn collects(s: Seq<char>, r: Self) -> bool { r@ == s } }
impl VxOrd<char> for char { open spec fn vx_lts(&self, o: &char) -> bool { *self < *o } open spec fn vx_les(&self, o: &char) -> bool { *self <= *o } }
impl VxOrd<bool> for bool { open spec fn vx_lts(&self, o: &bool) -> bool { !*self && *o } open spec fn vx_les(&self, o: &bool) -> bool { !*self || *o } }

pub open spec fn vx_in<T: VxEq<T>>(s: Seq<T>, x: T) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vx_eqs(&x) }
pub open spec fn vx_dedupd<T: VxEq<T>>(s: Seq<T>) -> Seq<T> decreases s.len() { if s.len() <= 1 { s } else { let r = vx_dedupd(s.drop_last()); if s[s.len() - 2].vx_eqs(&s.last()) { r } else { r.push(s.last()) } } }
pub open spec fn vx_key_le<T, K: VxOrd<K>, F: FnMut(&T) -> K>(f: F, a: T, b: T) -> bool { exists|x: K, y: K| #[trigger] call_ensures(f, (&a,), x) && #[trigger] call_ensures(f, (&b,), y) && x.vx_les(&y) }
pub trait VxSeqMore<T> {
    spec fn vx_sq(&self) -> Seq<T>;
    fn vx_contains(&self, x: &T) -> (r: bool) where T: VxEq<T> ensures r == vx_in(self.vx_sq(), *x);
    fn vx_windows<'a>(&'a self, n: usize) -> (r: VxIter<&'a [T]>) ensures n > 0, r@.len() == if self.vx_sq().len() >= n { (self.vx_sq().len() - n + 1) as nat } else { 0 }, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.vx_sq().subrange(i, i + n);
    fn vx_chunks<'a>(&'a self, n: usize) -> (r: VxIter<&'a [T]>) ensures n > 0, r@.len() == (self.vx_sq().len() + n - 1) / n as int, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.vx_sq().subrange(i * n, if (i + 1) * n <= self.vx_sq().len() { (i + 1) * n } else { self.vx_sq().len() as int });
    fn vx_binary_search(&self, x: &T) -> (r: Result<usize, usize>) where T: VxEq<T> ensures r is Ok ==> r->Ok_0 < self.vx_sq().len() && self.vx_sq()[r->Ok_0 as int].vx_eqs(x), r is Err ==> r->Err_0 <= self.vx_sq().len();
}
pub trait VxSeqMoreMut<T> {
    spec fn vx_sm(&self) -> Seq<T>;
    fn vx_swap(&mut self, i: usize, j: usize) ensures i < old(self).vx_sm().len(), j < old(self).vx_sm().len(), final(self).vx_sm() == old(self).vx_sm().update(i as int, old(self).vx_sm()[j as int]).update(j as int, old(self).vx_sm()[i as int]);
    fn vx_sort_by_key<K: VxOrd<K>, F: FnMut(&T) -> K>(&mut self, f: F)
        requires forall|a: &T| #[trigger] call_requires(f, (a,)),
        ensures final(self).vx_sm().to_multiset() == old(self).vx_sm().to_multiset(), final(self).vx_sm().len() == old(self).vx_sm().len(), vx_perm(old(self).vx_sm(), final(self).vx_sm()), forall|i: int, j: int| 0 <= i < j < final(self).vx_sm().len() ==> vx_key_le(f, #[trigger] final(self).vx_sm()[i], #[trigger] final(self).vx_sm()[j]);
}
pub trait VxVecMore<T> {
    spec fn vx_vq(&self) -> Seq<T>;
    fn vx_dedup(&mut self) where T: VxEq<T> ensures final(self).vx_vq() == vx_dedupd(old(self).vx_vq());
    fn vx_sort_unstable(&mut self) where T: VxOrd<T> ensures forall|i: int, j: int| #![trigger final(self).vx_vq()[i], final(self).vx_vq()[j]] 0 <= i < j < final(self).vx_vq().len() ==> final(self).vx_vq()[i].vx_les(&final(self).vx_vq()[j]), final(self).vx_vq().to_multiset() == old(self).vx_vq().to_multiset(), final(self).vx_vq().len() == old(self).vx_vq().len(), vx_perm(old(self).vx_vq(), final(self).vx_vq());
    fn vx_swap_remove(&mut self, i: usize) -> (r: T) ensures i < old(self).vx_vq().len(), r == old(self).vx_vq()[i as int], final(self).vx_vq() == old(self).vx_vq().update(i as int, old(self).vx_vq().last()).drop_last();
}
'''
ss = ["vx_contains(&self, x: &T) -> (r: bool) where T: VxEq<T>", "vx_windows<'a>(&'a self, n: usize) -> (r: VxIter<&'a [T]>)", "vx_chunks<'a>(&'a self, n: usize) -> (r: VxIter<&'a [T]>)", "vx_binary_search(&self, x: &T) -> (r: Result<usize, usize>) where T: VxEq<T>"]
sm = ["vx_swap(&mut self, i: usize, j: usize)", "vx_sort_by_key<K: VxOrd<K>, F: FnMut(&T) -> K>(&mut self, f: F)"]
sv = ["vx_dedup(&mut self) where T: VxEq<T>", "vx_sort_unstable(&mut self) where T: VxOrd<T>", "vx_swap_remove(&mut self, i: usize) -> (r: T)"]
body = lambda l: ' '.join(f'#[verifier::external_body] fn {s} {{ unimplemented!() }}' for s in l)
for t, g in [('Vec<T>', '<T>'), ('[T]', '<T>')]:
    MORE_VX += f'impl{g} VxSeqMore<T> for {t} {{ open spec fn vx_sq(&self) -> Seq<T> {{ self@ }} {body(ss)} }}\n'
    MORE_VX += f'impl{g} VxSeqMoreMut<T> for {t} {{ open spec fn vx_sm(&self) -> Seq<T> {{ self@ }} {body(sm)} }}\n'
MORE_VX += f'impl<T> VxVecMore<T> for Vec<T> {{ open spec fn vx_vq(&self) -> Seq<T> {{ self@ }} {body(sv)} }}\n'
MORE_VX += r'''
impl<T> VxIter<T> {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn vx_max(self) -> (r: Option<T>) where T: VxOrd<T> ensures r is None == (self@.len() == 0), r is Some ==> exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == r->0 && forall|j: int| 0 <= j < self@.len() ==> (#[trigger] self@[j]).vx_les(&r->0) { unimplemented!() }
    #[verifier::external_body] pub fn vx_min(self) -> (r: Option<T>) where T: VxOrd<T> ensures r is None == (self@.len() == 0), r is Some ==> exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == r->0 && forall|j: int| 0 <= j < self@.len() ==> (r->0).vx_les(#[trigger] &self@[j]) { unimplemented!() }
    #[verifier::external_body] pub fn vx_max_by_key<K: VxOrd<K>, F: FnMut(&T) -> K>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&(#[trigger] self@[i]),)),
        ensures r is None == (self@.len() == 0), r is Some ==> exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == r->0 && forall|j: int| 0 <= j < self@.len() ==> vx_key_le(f, #[trigger] self@[j], r->0) { unimplemented!() }
    #[verifier::external_body] pub fn vx_min_by_key<K: VxOrd<K>, F: FnMut(&T) -> K>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&(#[trigger] self@[i]),)),
        ensures r is None == (self@.len() == 0), r is Some ==> exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == r->0 && forall|j: int| 0 <= j < self@.len() ==> vx_key_le(f, r->0, #[trigger] self@[j]) { unimplemented!() }
    #[verifier::external_body] pub fn vx_take_while<F: FnMut(&T) -> bool>(self, f: F) -> (r: VxIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&(#[trigger] self@[i]),)),
        ensures r@.len() <= self@.len(), r@ == self@.take(r@.len() as int), forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (&(#[trigger] self@[i]),), true), r@.len() < self@.len() ==> call_ensures(f, (&self@[r@.len() as int],), false) { unimplemented!() }
    #[verifier::external_body] pub fn vx_skip_while<F: FnMut(&T) -> bool>(self, f: F) -> (r: VxIter<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&(#[trigger] self@[i]),)),
        ensures r@.len() <= self@.len(), r@ == self@.skip(self@.len() - r@.len()), forall|i: int| 0 <= i < self@.len() - r@.len() ==> call_ensures(f, (&(#[trigger] self@[i]),), true), r@.len() > 0 ==> call_ensures(f, (&r@[0],), false) { unimplemented!() }
    #[verifier::external_body] pub fn vx_find_map<U, F: FnMut(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures match r { Some(x) => exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), Some(x)) && forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] self@[j],), None::<U>),
            None => forall|j: int| 0 <= j < self@.len() ==> call_ensures(f, (#[trigger] self@[j],), None::<U>) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_step_by(self, n: usize) -> (r: VxIter<T>) ensures n > 0, r@.len() == (self@.len() + n - 1) / n as int, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self@[i * n] { unimplemented!() }
    #[verifier::external_body] pub fn vx_partition<C: VxCollect<T>, F: FnMut(&T) -> bool>(self, f: F) -> (r: (C, C))
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&(#[trigger] self@[i]),)),
        ensures exists|keep: Seq<bool>| keep.len() == self@.len() && C::collects(#[trigger] vx_kept(self@, keep), r.0) && C::collects(vx_kept(self@, keep.map_values(|b: bool| !b)), r.1) && forall|i: int| #![trigger self@[i]] #![trigger keep[i]] 0 <= i < self@.len() ==> call_ensures(f, (&self@[i],), keep[i]) { unimplemented!() }
    #[verifier::external_body] pub fn vx_product<S: VxProd<T>>(self) -> (r: S) ensures S::vx_prods(self@, r) { unimplemented!() }
}
pub trait VxProd<T>: Sized { spec fn vx_prods(s: Seq<T>, r: Self) -> bool; }
pub open spec fn isum<T: VxInt>(s: Seq<T>) -> int decreases s.len() { if s.len() == 0 { 0 } else { isum(s.drop_last()) + s.last().vx_iv() } }
pub open spec fn iprod<T: VxInt>(s: Seq<T>) -> int decreases s.len() { if s.len() == 0 { 1 } else { iprod(s.drop_last()) * s.last().vx_iv() } }
pub open spec fn ipow(b: int, n: nat) -> int decreases n { if n == 0 { 1 } else { ipow(b, (n - 1) as nat) * b } }
// the values a reference iterator goes over
pub open spec fn vx_derefs<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }

pub trait VxOptMore<T>: Sized {
    spec fn vx_om(&self) -> Option<T>;
    fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>) requires self.vx_om() is None ==> call_requires(f, ()) ensures match self.vx_om() { Some(x) => r == Some(x), None => call_ensures(f, (), r) };
    fn vx_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> (r: U) requires self.vx_om() is Some ==> call_requires(f, (self.vx_om()->0,)), self.vx_om() is None ==> call_requires(d, ()) ensures match self.vx_om() { Some(x) => call_ensures(f, (x,), r), None => call_ensures(d, (), r) };
    fn vx_is_none_or<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) requires self.vx_om() is Some ==> call_requires(f, (self.vx_om()->0,)) ensures match self.vx_om() { Some(x) => call_ensures(f, (x,), r), None => r };
    fn vx_xor(self, o: Option<T>) -> (r: Option<T>) ensures r == match (self.vx_om(), o) { (Some(x), None) => Some(x), (None, Some(x)) => Some(x), _ => None };
    fn vx_zip<U>(self, o: Option<U>) -> (r: Option<(T, U)>) ensures r == match (self.vx_om(), o) { (Some(x), Some(y)) => Some((x, y)), _ => None };
    fn vx_take(&mut self) -> (r: Option<T>) ensures r == old(self).vx_om(), final(self).vx_om() is None;
    fn vx_replace(&mut self, x: T) -> (r: Option<T>) ensures r == old(self).vx_om(), final(self).vx_om() == Some(x);
}
'''
om = ['vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>)', 'vx_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> (r: U)', 'vx_is_none_or<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)', 'vx_xor(self, o: Option<T>) -> (r: Option<T>)', 'vx_zip<U>(self, o: Option<U>) -> (r: Option<(T, U)>)', 'vx_take(&mut self) -> (r: Option<T>)', 'vx_replace(&mut self, x: T) -> (r: Option<T>)']
MORE_VX += f'impl<T> VxOptMore<T> for Option<T> {{ open spec fn vx_om(&self) -> Option<T> {{ *self }} {body(om)} }}\n'
MORE_VX += r'''
pub trait VxResMore<T, E>: Sized {
    spec fn vx_rm(&self) -> Result<T, E>;
    fn vx_or_else<G, F: FnOnce(E) -> Result<T, G>>(self, f: F) -> (r: Result<T, G>) requires self.vx_rm() is Err ==> call_requires(f, (self.vx_rm()->Err_0,)) ensures match self.vx_rm() { Ok(x) => r == Ok::<T, G>(x), Err(e) => call_ensures(f, (e,), r) };
    fn vx_unwrap_or_else<F: FnOnce(E) -> T>(self, f: F) -> (r: T) requires self.vx_rm() is Err ==> call_requires(f, (self.vx_rm()->Err_0,)) ensures match self.vx_rm() { Ok(x) => r == x, Err(e) => call_ensures(f, (e,), r) };
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) requires self.vx_rm() is Ok ==> call_requires(f, (self.vx_rm()->Ok_0,)) ensures match self.vx_rm() { Ok(x) => call_ensures(f, (x,), r), Err(e) => r == d };
    fn vx_err(self) -> (r: Option<E>) ensures r == match self.vx_rm() { Ok(_) => None, Err(e) => Some(e) };
    fn vx_unwrap_err(self) -> (r: E) ensures self.vx_rm() == Err::<T, E>(r);
    fn vx_or<G>(self, o: Result<T, G>) -> (r: Result<T, G>) ensures match self.vx_rm() { Ok(x) => r == Ok::<T, G>(x), Err(_) => r == o };
    fn vx_as_ref<'a>(&'a self) -> (r: Result<&'a T, &'a E>) ensures match self.vx_rm() { Ok(x) => r is Ok && *(r->Ok_0) == x, Err(e) => r is Err && *(r->Err_0) == e };
}
'''
rm = ['vx_or_else<G, F: FnOnce(E) -> Result<T, G>>(self, f: F) -> (r: Result<T, G>)', 'vx_unwrap_or_else<F: FnOnce(E) -> T>(self, f: F) -> (r: T)', 'vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U)', 'vx_err(self) -> (r: Option<E>)', 'vx_unwrap_err(self) -> (r: E)', 'vx_or<G>(self, o: Result<T, G>) -> (r: Result<T, G>)', "vx_as_ref<'a>(&'a self) -> (r: Result<&'a T, &'a E>)"]
MORE_VX += f'impl<T, E> VxResMore<T, E> for Result<T, E> {{ open spec fn vx_rm(&self) -> Result<T, E> {{ *self }} {body(rm)} }}\n'
MORE_VX += '''pub trait VxIntMore: VxInt {
    fn vx_pow(self, n: u32) -> (r: Self) ensures r.vx_iv() == ipow(self.vx_iv(), n as nat);
    fn vx_checked_pow(self, n: u32) -> (r: Option<Self>) ensures r is Some == (Self::vx_imin() <= ipow(self.vx_iv(), n as nat) <= Self::vx_imax()), r is Some ==> r->0.vx_iv() == ipow(self.vx_iv(), n as nat);
    fn vx_rem_euclid(self, o: Self) -> (r: Self) ensures o.vx_iv() != 0, o.vx_iv() > 0 ==> r.vx_iv() == self.vx_iv() % o.vx_iv();
    fn vx_saturating_mul(self, o: Self) -> (r: Self) ensures r.vx_iv() == if self.vx_iv() * o.vx_iv() > Self::vx_imax() { Self::vx_imax() } else if self.vx_iv() * o.vx_iv() < Self::vx_imin() { Self::vx_imin() } else { self.vx_iv() * o.vx_iv() };
    fn vx_is_power_of_two(self) -> (r: bool);
}
pub trait VxAbsDiff: Sized { type O; spec fn vx_ads(a: Self, b: Self, r: Self::O) -> bool; fn vx_abs_diff(self, o: Self) -> (r: Self::O) ensures Self::vx_ads(self, o, r); }
'''
im = ['vx_pow(self, n: u32) -> (r: Self)', 'vx_checked_pow(self, n: u32) -> (r: Option<Self>)', 'vx_rem_euclid(self, o: Self) -> (r: Self)', 'vx_saturating_mul(self, o: Self) -> (r: Self)', 'vx_is_power_of_two(self) -> (r: bool)']
for t in ['u8','u16','u32','u64','u128','usize','i32','i64','i128']:
    MORE_VX += f'impl VxIntMore for {t} {{ {body(im)} }}\n'
    MORE_VX += f"impl VxSum<{t}> for {t} {{ open spec fn vx_sums(s: Seq<{t}>, r: {t}) -> bool {{ r.vx_iv() == isum(s) }} }}\nimpl<'a> VxSum<&'a {t}> for {t} {{ open spec fn vx_sums(s: Seq<&'a {t}>, r: {t}) -> bool {{ r.vx_iv() == isum(vx_derefs(s)) }} }}\n"
    MORE_VX += f"impl VxProd<{t}> for {t} {{ open spec fn vx_prods(s: Seq<{t}>, r: {t}) -> bool {{ r.vx_iv() == iprod(s) }} }}\nimpl<'a> VxProd<&'a {t}> for {t} {{ open spec fn vx_prods(s: Seq<&'a {t}>, r: {t}) -> bool {{ r.vx_iv() == iprod(vx_derefs(s)) }} }}\n"
for t in ['u8','u16','u32','u64','u128','usize']:
    MORE_VX += f'impl VxAbsDiff for {t} {{ type O = {t}; open spec fn vx_ads(a: {t}, b: {t}, r: {t}) -> bool {{ r as int == if a >= b {{ a - b }} else {{ b - a }} }} #[verifier::external_body] fn vx_abs_diff(self, o: {t}) -> (r: {t}) {{ unimplemented!() }} }}\n'
MORE_VX += '''
// an inclusive range, as the values it goes over
pub trait VxIncl: VxInt { fn vx_incl1(self, b: Self) -> (r: VxIter<Self>) ensures r@.len() == if b.vx_iv() >= self.vx_iv() { (b.vx_iv() - self.vx_iv() + 1) as nat } else { 0 }, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).vx_iv() == self.vx_iv() + i; }
pub fn vx_incl<T: VxIncl>(a: T, b: T) -> (r: VxIter<T>) ensures r@.len() == if b.vx_iv() >= a.vx_iv() { (b.vx_iv() - a.vx_iv() + 1) as nat } else { 0 }, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).vx_iv() == a.vx_iv() + i { a.vx_incl1(b) }
'''
for t in ['u8','u16','u32','u64','u128','usize']:
    MORE_VX += f'impl VxIncl for {t} {{ #[verifier::external_body] fn vx_incl1(self, b: {t}) -> (r: VxIter<{t}>) {{ unimplemented!() }} }}\n'
CMP = '''pub use core::cmp::Ordering; pub use core::cmp::Reverse;
        #[verifier::external_body] pub fn min<A: crate::vx::VxOrd<A>>(a: A, b: A) -> (r: A) ensures r == if a.vx_les(&b) { a } else { b } { unimplemented!() }
        #[verifier::external_body] pub fn max<A: crate::vx::VxOrd<A>>(a: A, b: A) -> (r: A) ensures r == if a.vx_les(&b) { b } else { a } { unimplemented!() } }
    pub mod mem { use vstd::prelude::*;
        #[verifier::external_body] pub fn take<T: crate::vx::VxDefault>(x: &mut T) -> (r: T) ensures r == *old(x), T::vx_is_default(*final(x)) { unimplemented!() }
        #[verifier::external_body] pub fn replace<T>(x: &mut T, y: T) -> (r: T) ensures r == *old(x), *final(x) == y { unimplemented!() }
        #[verifier::external_body] pub fn swap<T>(x: &mut T, y: &mut T) ensures *final(x) == *old(y), *final(y) == *old(x) { unimplemented!() } }
'''
MAPS = r'''
    pub use self::BTreeMap as HashMap;
    impl<K: VxKey, V> BTreeMap<K, V> {
        // the entries in an unspecified order, each key once
        pub uninterp spec fn order(&self) -> Seq<(K, V)>;
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
        #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K::V, V>::empty()) { unimplemented!() }
        #[verifier::external_body] pub fn vx_keys<'a>(&'a self) -> (r: VxIter<&'a K>) ensures r@.len() == self.order().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.order()[i].0 { unimplemented!() }
        #[verifier::external_body] pub fn vx_values<'a>(&'a self) -> (r: VxIter<&'a V>) ensures r@.len() == self.order().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.order()[i].1 { unimplemented!() }
        #[verifier::external_body] pub fn vx_iter<'a>(&'a self) -> (r: VxIter<(&'a K, &'a V)>) ensures r@.len() == self.order().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == self.order()[i].0 && *r@[i].1 == self.order()[i].1 { unimplemented!() }
    }
    pub broadcast axiom fn ax_maporder<K: VxKey, V>(s: BTreeMap<K, V>) ensures mapof::<K, V>(#[trigger] s.order()) == s@, s.order().len() == s@.dom().len();
    impl<K: VxKey, V> VxSrc for BTreeMap<K, V> { type VxItem = (K, V); open spec fn vx_seq(&self) -> Seq<(K, V)> { self.order() } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<(K, V)>) { unimplemented!() } }
'''
for t in ['HashSet', 'BTreeSet']:
    MAPS += f'''    impl<K: VxKey> {t}<K> {{
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() {{ unimplemented!() }}
        #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K::V>::empty()) {{ unimplemented!() }}
        #[verifier::external_body] pub fn vx_contains<Q: VxKey<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains(k.vx_k()) {{ unimplemented!() }}
        #[verifier::external_body] pub fn remove<Q: VxKey<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: bool) ensures final(self)@ == old(self)@.remove(k.vx_k()), r == old(self)@.contains(k.vx_k()) {{ unimplemented!() }}
    }}
'''
MAPS += r'''    impl<K: VxKey> HashSet<K> { #[verifier::external_body] pub fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a K>) ensures r@.len() == self.order().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.order()[i] { unimplemented!() } }
    impl<K: VxKey> BTreeSet<K> { pub uninterp spec fn order(&self) -> Seq<K>; #[verifier::external_body] pub fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a K>) ensures r@.len() == self.order().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.order()[i] { unimplemented!() } }
    // the elements of an ordered set, ascending
    pub broadcast axiom fn ax_btreeset<K: VxKey + VxOrd<K>>(s: BTreeSet<K>) ensures #[trigger] vx_keysof(s.order()).to_set() == s@, vx_keysof(s.order()).no_duplicates(), forall|i: int, j: int| #![trigger s.order()[i], s.order()[j]] 0 <= i < j < s.order().len() ==> s.order()[i].vx_les(&s.order()[j]);
    impl<K: VxKey> VxSrc for BTreeSet<K> { type VxItem = K; open spec fn vx_seq(&self) -> Seq<K> { self.order() } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<K>) { unimplemented!() } }
    impl VxKey for u32 { type V = u32; open spec fn vx_k(&self) -> u32 { *self } }
    impl VxKey for u128 { type V = u128; open spec fn vx_k(&self) -> u128 { *self } }
    impl VxKey for usize { type V = usize; open spec fn vx_k(&self) -> usize { *self } }
    impl<A: VxKey, B: VxKey> VxKey for (A, B) { type V = (A::V, B::V); open spec fn vx_k(&self) -> (A::V, B::V) { (self.0.vx_k(), self.1.vx_k()) } }
'''
