global size_of usize == 8;
pub mod shim {
use vstd::prelude::*;
// ---- formatting, panics
#[verifier::external_body]
pub fn fmt_string() -> (r: String) { String::new() }
#[verifier::external_body]
pub fn panic_<T>() -> (r: T) requires false ensures false { unimplemented!() }
#[verifier::external_body]
pub fn assert_(b: bool) requires b ensures b { }
/// "an allocation request was refused by the allocator during this run" (environment)
pub uninterp spec fn oom() -> bool;
pub uninterp spec fn f64_le(f: f64) -> Seq<u8>;
pub uninterp spec fn le_f64(s: Seq<u8>) -> f64;
pub broadcast axiom fn f64_le_len(f: f64) ensures #[trigger] f64_le(f).len() == 8;
pub broadcast axiom fn f64_le_inv(f: f64) ensures le_f64(#[trigger] f64_le(f)) == f;
pub broadcast axiom fn f64_le_inv2(s: Seq<u8>) requires s.len() == 8 ensures f64_le(#[trigger] le_f64(s)) == s;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);

pub assume_specification [ String::from_utf8 ] (v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures match r { Ok(s) => vstd::utf8::valid_utf8(v@) && s@ == vstd::utf8::decode_utf8(v@), Err(_) => !vstd::utf8::valid_utf8(v@) };
/// a TryReserveError value only exists after the allocator (or a capacity overflow, impossible for the sizes
/// requested here) refused a request
pub axiom fn reserve_error_is_oom(e: std::collections::TryReserveError) ensures oom();
/// `impl<T> From<T> for T` and `impl<T> From<T> for Option<T>` (core), seen through `Into`
pub broadcast axiom fn into_id<T>(x: T) ensures <T as vstd::std_specs::convert::IntoSpec<T>>::obeys_into_spec(), #[trigger] vstd::std_specs::convert::IntoSpec::<T>::into_spec(x) == x;
pub broadcast axiom fn into_opt<T>(x: T) ensures <T as vstd::std_specs::convert::IntoSpec<Option<T>>>::obeys_into_spec(), #[trigger] vstd::std_specs::convert::IntoSpec::<Option<T>>::into_spec(x) == Some(x);
pub proof fn into_id_all<T>() ensures <T as vstd::std_specs::convert::IntoSpec<T>>::obeys_into_spec(), forall|x: T| #[trigger] vstd::std_specs::convert::IntoSpec::<T>::into_spec(x) == x
{ broadcast use into_id; assert forall|x: T| #[trigger] vstd::std_specs::convert::IntoSpec::<T>::into_spec(x) == x by { into_id(x); } into_id(arbitrary::<T>()); }
pub broadcast group into_group { into_id, into_opt }
/// b is what a converts to
pub open spec fn into_eq<A: Into<B>, B>(a: A, b: B) -> bool { <A as vstd::std_specs::convert::IntoSpec<B>>::obeys_into_spec() ==> b == <A as vstd::std_specs::convert::IntoSpec<B>>::into_spec(a) }
pub assume_specification [ f64::from_le_bytes ] (b: [u8; 8]) -> (r: f64) ensures r == le_f64(b@);
// std functions behaviour-preserving edits may bring in (vstd has no specification for them)
pub assume_specification<T> [ std::mem::replace::<T> ] (d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s;
pub assume_specification<T, U, F: FnOnce(T) -> U> [ Option::<T>::map_or::<U, F> ] (x: Option<T>, d: U, f: F) -> (r: U)
    requires x is Some ==> f.requires((x->0,)) ensures x is None ==> r == d, x is Some ==> f.ensures((x->0,), r);
pub assume_specification<T, F: FnOnce(T) -> bool> [ Option::<T>::is_some_and ] (x: Option<T>, f: F) -> (r: bool)
    requires x is Some ==> f.requires((x->0,)) ensures x is None ==> !r, x is Some ==> f.ensures((x->0,), r);
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [ Result::<T, E>::and_then::<U, F> ] (x: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires x is Ok ==> f.requires((x->Ok_0,)) ensures match x { Ok(v) => f.ensures((v,), r), Err(e) => r == Err::<U, E>(e) };
pub assume_specification<T> [ bool::then_some::<T> ] (b: bool, v: T) -> (r: Option<T>) ensures r == (if b { Some(v) } else { None::<T> });
pub assume_specification<T: Ord> [ std::cmp::min::<T> ] (a: T, b: T) -> (r: T) ensures T::min.ensures((a, b), r);
pub assume_specification<T: Ord> [ std::cmp::max::<T> ] (a: T, b: T) -> (r: T) ensures T::max.ensures((a, b), r);
pub assume_specification<'a, T: Copy> [ Option::<&'a T>::copied ] (x: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match x { Some(v) => Some(*v), None => None });
pub assume_specification<T> [ Option::<T>::or ] (x: Option<T>, y: Option<T>) -> (r: Option<T>) ensures r == (if x is Some { x } else { y });
pub assume_specification<T> [ Option::<T>::replace ] (x: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(x), *final(x) == Some(v);
pub assume_specification<T, U> [ Option::<T>::zip::<U> ] (x: Option<T>, y: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (if x is Some && y is Some { Some((x->0, y->0)) } else { None });
pub assume_specification<T> [ Option::<Option<T>>::flatten ] (x: Option<Option<T>>) -> (r: Option<T>) ensures r == (match x { Some(y) => y, None => None });
pub assume_specification<T, F: FnOnce(T) -> bool> [ Option::<T>::is_none_or ] (x: Option<T>, f: F) -> (r: bool)
    requires x is Some ==> f.requires((x->0,)) ensures x is None ==> r, x is Some ==> f.ensures((x->0,), r);
pub assume_specification<T, E> [ Result::<T, E>::unwrap_or ] (x: Result<T, E>, d: T) -> (r: T) ensures r == (match x { Ok(v) => v, Err(_) => d });
pub assume_specification<T: Default> [ std::mem::take::<T> ] (d: &mut T) -> (r: T) ensures r == *old(d), T::default.ensures((), *final(d));
pub assume_specification [ String::as_bytes ] (x: &String) -> (r: &[u8]) ensures r@ == vstd::utf8::encode_utf8(x@);
pub assume_specification [ String::into_bytes ] (x: String) -> (r: Vec<u8>) ensures r@ == vstd::utf8::encode_utf8(x@);
pub assume_specification [ String::len ] (x: &String) -> (r: usize) ensures r == vstd::utf8::encode_utf8(x@).len();
pub assume_specification<T: Clone> [ <[T]>::to_vec ] (x: &[T]) -> (r: Vec<T>) ensures r@.len() == x@.len(), forall|i: int| 0 <= i < x@.len() ==> vstd::pervasive::cloned::<T>(x@[i], #[trigger] r@[i]);
pub assume_specification<T: Clone> [ <[T] as std::borrow::ToOwned>::to_owned ] (x: &[T]) -> (r: Vec<T>) ensures r@.len() == x@.len(), forall|i: int| 0 <= i < x@.len() ==> vstd::pervasive::cloned::<T>(x@[i], #[trigger] r@[i]);
pub assume_specification [ i16::wrapping_neg ] (x: i16) -> (r: i16) ensures r == (if x == i16::MIN { x as int } else { -x });
pub assume_specification [ i32::wrapping_neg ] (x: i32) -> (r: i32) ensures r == (if x == i32::MIN { x as int } else { -x });
pub assume_specification [ i64::wrapping_neg ] (x: i64) -> (r: i64) ensures r == (if x == i64::MIN { x as int } else { -x });
pub assume_specification [ i16::unsigned_abs ] (x: i16) -> (r: u16) ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification [ i32::unsigned_abs ] (x: i32) -> (r: u32) ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification [ i64::unsigned_abs ] (x: i64) -> (r: u64) ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification [ i8::is_negative ] (x: i8) -> (r: bool) ensures r == (x < 0);
pub assume_specification [ i16::is_negative ] (x: i16) -> (r: bool) ensures r == (x < 0);
pub assume_specification [ i32::is_negative ] (x: i32) -> (r: bool) ensures r == (x < 0);
pub assume_specification [ i64::is_negative ] (x: i64) -> (r: bool) ensures r == (x < 0);
pub assume_specification [ i8::is_positive ] (x: i8) -> (r: bool) ensures r == (x > 0);
pub assume_specification [ i16::is_positive ] (x: i16) -> (r: bool) ensures r == (x > 0);
pub assume_specification [ i32::is_positive ] (x: i32) -> (r: bool) ensures r == (x > 0);
pub assume_specification [ i64::is_positive ] (x: i64) -> (r: bool) ensures r == (x > 0);
pub assume_specification [ i16::abs_diff ] (x: i16, y: i16) -> (r: u16) ensures r == (if x < y { y - x } else { x - y });
pub assume_specification [ i8::saturating_sub ] (x: i8, y: i8) -> (r: i8) ensures r == (if x - y > i8::MAX { i8::MAX as int } else if x - y < i8::MIN { i8::MIN as int } else { x - y });
pub assume_specification [ i16::saturating_sub ] (x: i16, y: i16) -> (r: i16) ensures r == (if x - y > i16::MAX { i16::MAX as int } else if x - y < i16::MIN { i16::MIN as int } else { x - y });
pub assume_specification [ i8::saturating_add ] (x: i8, y: i8) -> (r: i8) ensures r == (if x + y > i8::MAX { i8::MAX as int } else if x + y < i8::MIN { i8::MIN as int } else { x + y });
pub assume_specification [ i16::saturating_add ] (x: i16, y: i16) -> (r: i16) ensures r == (if x + y > i16::MAX { i16::MAX as int } else if x + y < i16::MIN { i16::MIN as int } else { x + y });
pub assume_specification [ u64::div_ceil ] (x: u64, y: u64) -> (r: u64) requires y > 0 ensures r == (x + y - 1) / y as int;
pub assume_specification [ usize::div_ceil ] (x: usize, y: usize) -> (r: usize) requires y > 0 ensures r == (x + y - 1) / y as int;
pub assume_specification [ u32::div_ceil ] (x: u32, y: u32) -> (r: u32) requires y > 0 ensures r == (x + y - 1) / y as int;
pub assume_specification<T> [ Option::<T>::xor ] (x: Option<T>, y: Option<T>) -> (r: Option<T>) ensures r == (if x is Some && y is None { x } else if x is None && y is Some { y } else { None });
pub assume_specification<T, U> [ Option::<T>::and::<U> ] (x: Option<T>, y: Option<U>) -> (r: Option<U>) ensures r == (if x is Some { y } else { None });
pub assume_specification<T: Default, E> [ Result::<T, E>::unwrap_or_default ] (x: Result<T, E>) -> (r: T) ensures match x { Ok(v) => r == v, Err(_) => T::default.ensures((), r) };
pub assume_specification<T, E, U> [ Result::<T, E>::and::<U> ] (x: Result<T, E>, y: Result<U, E>) -> (r: Result<U, E>) ensures r == (match x { Ok(_) => y, Err(e) => Err(e) });
pub assume_specification<T> [ <[T]>::reverse ] (x: &mut [T]) ensures final(x)@ == old(x)@.reverse();
pub assume_specification<T> [ <[T]>::swap ] (x: &mut [T], a: usize, b: usize) requires a < old(x)@.len(), b < old(x)@.len() ensures final(x)@ == old(x)@.update(a as int, old(x)@[b as int]).update(b as int, old(x)@[a as int]);
pub assume_specification [ i8::unsigned_abs ] (x: i8) -> (r: u8) ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification [ i8::wrapping_neg ] (x: i8) -> (r: i8) ensures r == (if x == i8::MIN { x as int } else { -x });
pub assume_specification [ u64::abs_diff ] (x: u64, y: u64) -> (r: u64) ensures r == (if x < y { y - x } else { x - y });
pub assume_specification [ usize::abs_diff ] (x: usize, y: usize) -> (r: usize) ensures r == (if x < y { y - x } else { x - y });
pub assume_specification [ usize::overflowing_sub ] (x: usize, y: usize) -> (r: (usize, bool)) ensures r.1 == (x < y), r.0 == (if x < y { x - y + 0x1_0000_0000_0000_0000 } else { x - y });
pub assume_specification [ usize::overflowing_add ] (x: usize, y: usize) -> (r: (usize, bool)) ensures r.1 == (x + y > usize::MAX), r.0 == (if x + y > usize::MAX { x + y - 0x1_0000_0000_0000_0000 } else { x + y });
pub assume_specification [ i16::signum ] (x: i16) -> (r: i16) ensures r == (if x > 0 { 1int } else if x == 0 { 0 } else { -1 });
pub assume_specification<T, A: std::alloc::Allocator> [ Vec::<T, A>::shrink_to_fit ] (x: &mut Vec<T, A>) ensures final(x)@ == old(x)@;
/// `map_or` of an option or a result
pub trait ToOpt: Sized {
    type T;
    spec fn opt(self) -> Option<Self::T>;
    fn to_opt(self) -> (r: Option<Self::T>) ensures r == self.opt();
}
impl<T> ToOpt for Option<T> {
    type T = T;
    open spec fn opt(self) -> Option<T> { self }
    fn to_opt(self) -> Option<T> { self }
}
impl<T, E> ToOpt for Result<T, E> {
    type T = T;
    open spec fn opt(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    fn to_opt(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
}
// 64-bit words and floats as their bytes
pub open spec fn le_u64(s: Seq<u8>) -> u64 { s[0] as u64 | (s[1] as u64) << 8 | (s[2] as u64) << 16 | (s[3] as u64) << 24 | (s[4] as u64) << 32 | (s[5] as u64) << 40 | (s[6] as u64) << 48 | (s[7] as u64) << 56 }
pub open spec fn u64_le(x: u64) -> Seq<u8> { seq![x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8, (x >> 32) as u8, (x >> 40) as u8, (x >> 48) as u8, (x >> 56) as u8] }
pub broadcast proof fn le_u64_inv(s: Seq<u8>) requires s.len() == 8 ensures u64_le(#[trigger] le_u64(s)) == s
{
    let (a,b,c,d,e,f,g,h) = (s[0],s[1],s[2],s[3],s[4],s[5],s[6],s[7]);
    let x = le_u64(s);
    assert(x == (a as u64 | (b as u64) << 8 | (c as u64) << 16 | (d as u64) << 24 | (e as u64) << 32 | (f as u64) << 40 | (g as u64) << 48 | (h as u64) << 56));
    assert(x as u8 == a && (x >> 8) as u8 == b && (x >> 16) as u8 == c && (x >> 24) as u8 == d && (x >> 32) as u8 == e && (x >> 40) as u8 == f && (x >> 48) as u8 == g && (x >> 56) as u8 == h) by(bit_vector)
      requires x == (a as u64 | (b as u64) << 8 | (c as u64) << 16 | (d as u64) << 24 | (e as u64) << 32 | (f as u64) << 40 | (g as u64) << 48 | (h as u64) << 56);
    assert(u64_le(x) =~= s);
}
pub broadcast proof fn u64_le_inv(x: u64) ensures le_u64(#[trigger] u64_le(x)) == x
{
    assert(((x as u8) as u64 | (((x >> 8) as u8) as u64) << 8 | (((x >> 16) as u8) as u64) << 16 | (((x >> 24) as u8) as u64) << 24 | (((x >> 32) as u8) as u64) << 32 | (((x >> 40) as u8) as u64) << 40 | (((x >> 48) as u8) as u64) << 48 | (((x >> 56) as u8) as u64) << 56) == x) by(bit_vector);
}
#[verifier::external_body] pub fn u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r == le_u64(b@) { u64::from_le_bytes(b) }
#[verifier::external_body] pub fn u64_from_be_bytes(b: [u8; 8]) -> (r: u64) ensures r == le_u64(b@.reverse()) { u64::from_be_bytes(b) }
/// `to_le_bytes` and `to_be_bytes`
pub trait LeBytes: Sized {
    spec fn le(self) -> Seq<u8>;
    fn to_le_bytes(self) -> (r: [u8; 8]) ensures r@ == self.le();
    fn to_be_bytes(self) -> (r: [u8; 8]) ensures r@ == self.le().reverse();
}
impl LeBytes for f64 {
    open spec fn le(self) -> Seq<u8> { f64_le(self) }
    #[verifier::external_body] fn to_le_bytes(self) -> (r: [u8; 8]) { f64::to_le_bytes(self) }
    #[verifier::external_body] fn to_be_bytes(self) -> (r: [u8; 8]) { f64::to_be_bytes(self) }
}
impl LeBytes for u64 {
    open spec fn le(self) -> Seq<u8> { u64_le(self) }
    #[verifier::external_body] fn to_le_bytes(self) -> (r: [u8; 8]) { u64::to_le_bytes(self) }
    #[verifier::external_body] fn to_be_bytes(self) -> (r: [u8; 8]) { u64::to_be_bytes(self) }
}
pub assume_specification [ f64::from_bits ] (x: u64) -> (r: f64) ensures r == le_f64(u64_le(x));
pub assume_specification [ f64::to_bits ] (f: f64) -> (r: u64) ensures r == le_u64(f64_le(f));
pub assume_specification [ f64::from_be_bytes ] (b: [u8; 8]) -> (r: f64) ensures r == le_f64(b@.reverse());
// core's lossless integer conversions that vstd has no specification for
pub assume_specification [ <i16 as From<u8>>::from ] (x: u8) -> (r: i16) ensures r == x;
pub assume_specification [ <i32 as From<u8>>::from ] (x: u8) -> (r: i32) ensures r == x;
pub assume_specification [ <i64 as From<u8>>::from ] (x: u8) -> (r: i64) ensures r == x;
pub assume_specification [ <i128 as From<u8>>::from ] (x: u8) -> (r: i128) ensures r == x;
pub assume_specification [ <i32 as From<u16>>::from ] (x: u16) -> (r: i32) ensures r == x;
pub assume_specification [ <i64 as From<u16>>::from ] (x: u16) -> (r: i64) ensures r == x;
pub assume_specification [ <i128 as From<u16>>::from ] (x: u16) -> (r: i128) ensures r == x;
pub assume_specification [ <i64 as From<u32>>::from ] (x: u32) -> (r: i64) ensures r == x;
pub assume_specification [ <i128 as From<u32>>::from ] (x: u32) -> (r: i128) ensures r == x;
pub assume_specification [ <i128 as From<u64>>::from ] (x: u64) -> (r: i128) ensures r == x;
pub assume_specification [ <u8 as From<bool>>::from ] (x: bool) -> (r: u8) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <u16 as From<bool>>::from ] (x: bool) -> (r: u16) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <u32 as From<bool>>::from ] (x: bool) -> (r: u32) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <u64 as From<bool>>::from ] (x: bool) -> (r: u64) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <usize as From<bool>>::from ] (x: bool) -> (r: usize) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <i8 as From<bool>>::from ] (x: bool) -> (r: i8) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <i16 as From<bool>>::from ] (x: bool) -> (r: i16) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <i32 as From<bool>>::from ] (x: bool) -> (r: i32) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <i64 as From<bool>>::from ] (x: bool) -> (r: i64) ensures r == (if x { 1int } else { 0int });
pub assume_specification [ <i8 as TryFrom<u8>>::try_from ] (x: u8) -> (r: Result<i8, <i8 as TryFrom<u8>>::Error>) ensures match r { Ok(v) => v == x && x <= 127, Err(_) => x > i8::MAX };
pub assume_specification [ <i16 as TryFrom<u16>>::try_from ] (x: u16) -> (r: Result<i16, <i16 as TryFrom<u16>>::Error>) ensures match r { Ok(v) => v == x && x <= 32767, Err(_) => x > i16::MAX };
pub assume_specification [ <i32 as TryFrom<u32>>::try_from ] (x: u32) -> (r: Result<i32, <i32 as TryFrom<u32>>::Error>) ensures match r { Ok(v) => v == x && x <= 0x7fff_ffff, Err(_) => x > i32::MAX };
pub assume_specification [ <i64 as TryFrom<u64>>::try_from ] (x: u64) -> (r: Result<i64, <i64 as TryFrom<u64>>::Error>) ensures match r { Ok(v) => v == x && x <= 0x7fff_ffff_ffff_ffff, Err(_) => x > i64::MAX };
pub assume_specification [ <isize as TryFrom<usize>>::try_from ] (x: usize) -> (r: Result<isize, <isize as TryFrom<usize>>::Error>) ensures match r { Ok(v) => v == x && x <= 0x7fff_ffff_ffff_ffff, Err(_) => x > isize::MAX };
pub assume_specification<T> [ <T as From<T>>::from ] (x: T) -> (r: T) ensures r == x;
pub assume_specification<T> [ <Option<T> as From<T>>::from ] (x: T) -> (r: Option<T>) ensures r == Some(x);

// ---- std::io / futures::io: trait declarations with the contracts their documentation gives
pub mod io {
use vstd::prelude::*;
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum ErrorKind { NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other }
unsafe impl Structural for ErrorKind {}
pub struct Error { pub k: ErrorKind }
impl Error {
    pub fn new<E>(k: ErrorKind, e: E) -> (r: Error) ensures r.k == k { Error { k } }
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k }
}
impl vstd::std_specs::convert::FromSpecImpl<ErrorKind> for Error {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: ErrorKind) -> Self { arbitrary() }
}
impl From<ErrorKind> for Error { fn from(k: ErrorKind) -> (r: Error) ensures r.k == k { Error { k } } }
pub type Result<T> = std::result::Result<T, Error>;
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }

pub trait Read: Sized {
    spec fn inp(&self) -> Seq<u8>;
    spec fn fault(&self) -> Option<ErrorKind>;
    /// assumption: a source holds fewer than 2^64 bytes
    proof fn inp_bound(&self) ensures self.inp().len() <= u64::MAX;
    spec fn intr(&self) -> nat;
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
        ensures final(buf)@.len() == old(buf)@.len(), final(self).fault() == old(self).fault(),
            match r {
                Ok(n) => n <= old(buf)@.len() && n <= old(self).inp().len()
                    && final(self).inp() == old(self).inp().skip(n as int)
                    && final(buf)@ == old(self).inp().take(n as int) + old(buf)@.skip(n as int)
                    && (n == 0 ==> old(buf)@.len() == 0 || old(self).inp().len() == 0)
                    && final(self).intr() <= old(self).intr(),
                Err(e) => (old(self).fault() == Some(e.k) && e.k != ErrorKind::Interrupted)
                    || (e.k == ErrorKind::Interrupted && final(self).intr() < old(self).intr() && final(self).inp() == old(self).inp()),
            };
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
        ensures final(buf)@.len() == old(buf)@.len(), final(self).fault() == old(self).fault(),
            match r {
                Ok(_) => old(self).inp().len() >= old(buf)@.len()
                    && final(buf)@ == old(self).inp().take(old(buf)@.len() as int)
                    && final(self).inp() == old(self).inp().skip(old(buf)@.len() as int),
                Err(e) => old(self).fault() == Some(e.k)
                    || (e.k == ErrorKind::UnexpectedEof && old(self).inp().len() < old(buf)@.len()),
            };
}
pub struct Take<'a, R> { pub inner: &'a mut R, pub n: u64 }
pub trait ReadExt: Sized {
    fn by_ref(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self);
    fn take(&mut self, n: u64) -> (r: Take<'_, Self>) ensures *r.inner == *old(self), *final(r.inner) == *final(self), r.n == n;
}
impl<R: Read> ReadExt for R {
    #[verifier::external_body]
    fn by_ref(&mut self) -> (r: &mut Self) { self }
    fn take(&mut self, n: u64) -> (r: Take<'_, Self>) { Take { inner: self, n } }
}
impl<'a, R: Read> Take<'a, R> {
    #[verifier::external_body]
    pub fn read_to_end(self, buf: &mut Vec<u8>) -> (r: Result<usize>)
        ensures (*final(self.inner)).fault() == (*old(self.inner)).fault(),
            match r {
                Ok(k) => k == imin(self.n as int, (*old(self.inner)).inp().len() as int)
                    && final(buf)@ == old(buf)@ + (*old(self.inner)).inp().take(k as int)
                    && (*final(self.inner)).inp() == (*old(self.inner)).inp().skip(k as int),
                Err(e) => (*old(self.inner)).fault() == Some(e.k),
            }
    { unimplemented!() }
}
//#ASYNC-BEGIN
pub trait Write: Sized {
    /// bytes this sink has accepted so far
    spec fn out(&self) -> Seq<u8>;
    /// kinds of error this sink may report (empty: a sink that always accepts)
    spec fn werr(&self) -> Set<ErrorKind>;
    /// everything accepted so far has been handed on (only a flush that succeeds promises that)
    spec fn flushed(&self) -> bool;
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
        ensures final(self).werr() == old(self).werr(), final(self).out().len() <= usize::MAX,
            match r {
                Ok(n) => n <= buf@.len() && final(self).out() == old(self).out() + buf@.take(n as int)
                    && (!old(self).werr().contains(ErrorKind::WriteZero) && buf@.len() > 0 ==> n > 0),
                Err(e) => old(self).werr().contains(e.k) && final(self).out() == old(self).out(),
            };
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
        ensures final(self).werr() == old(self).werr(), final(self).out().len() <= usize::MAX,
            match r {
                Ok(_) => final(self).out() == old(self).out() + buf@,
                // on failure the sink holds what it had accepted, in order
                Err(e) => old(self).werr().contains(e.k) && crate::theory::between(old(self).out(), final(self).out(), old(self).out() + buf@),
            };
    fn flush(&mut self) -> (r: Result<()>)
        ensures final(self).werr() == old(self).werr(), final(self).out() == old(self).out(), r is Ok ==> final(self).flushed(), r is Err ==> old(self).werr().contains(r->Err_0.k);
}
} // io
} // shim
