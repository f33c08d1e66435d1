// C05, C06: the room of a buffer without an allocator: a fixed number of places, filled from the first.
use vstd::prelude::*;
verus! {
pub mod array_vec {
use vstd::prelude::*;
pub type Result<T, E> = core::result::Result<T, E>;
pub struct Error(());
impl Error { #[verifier::external_body] pub fn no_alloc(_a: &str) -> Error { unimplemented!() } }
// `MaybeUninit`, by its documentation: what was written last, if anything was.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct MaybeUninit<T> { t: core::marker::PhantomData<T> }
impl<T> MaybeUninit<T> {
    pub uninterp spec fn at(&self) -> Option<T>;
    #[verifier::external_body]
    pub fn write(&mut self, v: T) ensures final(self).at() == Some(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init_read(&self) -> (r: T) requires self.at() is Some, ensures Some(r) == self.at() { unimplemented!() }
}
pub struct ArrayVec<T, const N: usize> { pub buf: [MaybeUninit<T>; N], pub len: usize }
// Places nothing was written to, and the first places as a slice of what was written there.
#[verifier::external_body]
pub fn nothing<T, const N: usize>() -> (r: [MaybeUninit<T>; N]) { unimplemented!() }
pub open spec fn held<T>(b: Seq<MaybeUninit<T>>, n: int) -> bool { n <= b.len() && forall|i: int| 0 <= i < n ==> (#[trigger] b[i]).at() is Some }
#[verifier::external_body]
pub fn first_places<'a, T, const N: usize>(b: &'a [MaybeUninit<T>; N], n: usize) -> (r: &'a [T])
    requires held(b@, n as int),
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> Some(#[trigger] r@[i]) == b@[i].at(),
{ unimplemented!() }
#[verifier::external_body]
pub fn place<'a, T, const N: usize>(b: &'a mut [MaybeUninit<T>; N], i: usize) -> (r: &'a mut MaybeUninit<T>)
    requires i < N,
    ensures *r == old(b)@[i as int], final(b)@ == old(b)@.update(i as int, *final(r)),
{ unimplemented!() }
impl<T, const N: usize> ArrayVec<T, N> {
    // holds at all times
    pub open spec fn inv(&self) -> bool { self.len <= N && held(self.buf@, self.len as int) }
    pub open spec fn view(&self) -> Seq<T> { Seq::new(self.len as nat, |i: int| self.buf@[i].at().unwrap()) }
//@fn sval_buffer_noalloc | value::array_vec::{impl<T, const N: usize> Default for ArrayVec<T, N>}::default
//@sub (?s)unsafe \{\s*mem::MaybeUninit.*?assume_init\(\)\s*\} => nothing()
//@spec
    ensures r.inv(), r@.len() == 0,
//@end
//@fn sval_buffer_noalloc | value::array_vec::{impl<T, const N: usize> ArrayVec<T, N>}::push
//@sub mem::MaybeUninit:: => MaybeUninit::
//@sub &mut self\.buf\[self\.len\] => place(&mut self.buf, self.len)
//@spec
    requires old(self).inv(),
    ensures final(self).inv(), r.is_ok() == (old(self)@.len() < N), r.is_ok() ==> (*final(self))@ =~= (*old(self))@.push(value), r.is_err() ==> *final(self) == *old(self),
//@end
//@fn sval_buffer_noalloc | value::array_vec::{impl<T, const N: usize> ArrayVec<T, N>}::pop
//@sub mem::MaybeUninit:: => MaybeUninit::
//@spec
    requires old(self).inv(),
    ensures final(self).inv(), match r {
        Some(x) => 0 < old(self)@.len() && x == old(self)@.last() && final(self)@ =~= old(self)@.drop_last(),
        None => 0 == old(self)@.len() && final(self)@ == old(self)@ }
//@end
//@fn sval_buffer_noalloc | value::array_vec::{impl<T, const N: usize> ArrayVec<T, N>}::clear
//@sub Default::default\(\) => ArrayVec::default()
//@spec
    ensures final(self).inv(), (*final(self))@.len() == 0,
//@end
//@fn sval_buffer_noalloc | value::array_vec::{impl<T, const N: usize> Deref for ArrayVec<T, N>}::deref
//@sub &Self::Target => &[T]
//@sub let buf = &self\.buf\[\.\.self\.len\]; => let buf = first_places(&self.buf, self.len);
//@sub (?s)unsafe \{\s*&\*\(buf as.*?\)\s*\} => buf
//@spec
    requires self.inv(),
    ensures r@ =~= self@,
//@end
}
impl<T: Clone, const N: usize> ArrayVec<T, N> {
//@fn sval_buffer_noalloc | value::array_vec::{impl<T: Clone, const N: usize> Clone for ArrayVec<T, N>}::clone
//@sub Self::default\(\) => ArrayVec::<T, N>::default()
//@sub self\.iter\(\)\.cloned\(\) => cloned_items(self.deref())
//@sub \.unwrap\(\) => .ok().unwrap()
//@spec
    requires self.inv(),
    ensures r.inv(), r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> copied::<T>(self@[i], #[trigger] r@[i]),
//@loop 0
    invariant self.inv(), buf.inv(), it.seq().len() == self@.len(), self@.len() <= N, buf@ == it.seq().take(it.index@),
        forall|i: int| 0 <= i < self@.len() ==> copied::<T>(self@[i], #[trigger] it.seq()[i]),
//@end
}
// `Clone` makes a copy (what that means is up to the type)
pub uninterp spec fn copied<T>(a: T, b: T) -> bool;
#[verifier::external_body]
pub fn cloned_items<T: Clone>(s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> copied::<T>(s@[i], #[trigger] r@[i]),
{ unimplemented!() }
}
}
fn main() {}
