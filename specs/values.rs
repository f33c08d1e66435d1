// C12: the types of the standard library stream exactly their content.
use vstd::prelude::*;
verus! {
//@include stream.rs
//@include builtin.rs
//@include display.rs

// Trusted: the length of a string in bytes, and a character's own encoding.
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize) ensures r == utf8_len(s@) as usize { s.len() }
#[verifier::external_body]
pub fn encode_char<'a>(c: &char, buf: &'a mut [u8; 4]) -> (r: &'a str) ensures r@ == seq![*c] { unimplemented!() }

// Unsizing an array.
pub fn slice_of<'a, T, const N: usize>(a: &'a [T; N]) -> (r: &'a [T]) ensures r@ == a@ { a }

// The standard library's maps: iterating one visits each of its `len` entries once, in its own
// order (assumed); that order is the only thing a value's events can depend on.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { m: core::marker::PhantomData<(K, V)> }
impl<K, V> View for BTreeMap<K, V> { type V = Seq<(K, V)>; uninterp spec fn view(&self) -> Seq<(K, V)>; }
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn entries(&self) -> (r: &[(K, V)]) ensures r@ == self@ { unimplemented!() }
}
impl<K: Value, V: Value> Value for BTreeMap<K, V> { open spec fn evs(&self) -> Seq<Ev> { map_evs(self@) } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(H)]
pub struct HashMap<K, V, H> { m: core::marker::PhantomData<(K, V, H)> }
impl<K, V, H> View for HashMap<K, V, H> { type V = Seq<(K, V)>; uninterp spec fn view(&self) -> Seq<(K, V)>; }
impl<K, V, H> HashMap<K, V, H> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn entries(&self) -> (r: &[(K, V)]) ensures r@ == self@ { unimplemented!() }
}
impl<K: Value, V: Value, H> Value for HashMap<K, V, H> { open spec fn evs(&self) -> Seq<Ev> { map_evs(self@) } }

pub mod values {
use super::*;
broadcast use {lend_push, append_empty, append_assoc, lend_concat, seq_items_all, map_items_all};

//@impl sval | data::{impl Value for ()}
//@header impl ValueStream for ()
//@only stream
//@end
//@impl sval | data::{impl Value for bool}
//@header impl ValueStream for bool
//@only stream
//@end
//@impl sval | data::option::{impl Value for Null}
//@header impl ValueStream for Null
//@only stream
//@end
//@impl sval | data::option::{impl<T: Value> Value for Option<T>}
//@header impl<T: Value> ValueStream for Option<T>
//@only stream
//@end
//@impl sval | data::text::{impl Value for str}
//@header impl ValueStream for str
//@only stream
//@sub self\.len\(\) => str_len(self)
//@end
//@impl sval | data::text::{impl Value for char}
//@header impl ValueStream for char
//@only stream
//@sub &\*self\.encode_utf8\(&mut buf\) => encode_char(self, &mut buf)
//@sub value\.len\(\) => str_len(value)
//@end
//@impl sval | data::text::alloc_support::{impl Value for String}
//@header impl ValueStream for String
//@only stream
//@sub \(&\*\*self\) => self.as_str()
//@end
//@impl sval | data::binary::{impl Value for BinarySlice}
//@header impl ValueStream for BinarySlice
//@only stream
//@end
//@impl sval | data::binary::{impl<const N: usize> Value for BinaryArray<N>}
//@header impl<const N: usize> ValueStream for BinaryArray<N>
//@only stream
//@end
//@impl sval | data::seq::{impl<T: Value> Value for [T]}
//@header impl<T: Value> ValueStream for [T]
//@only stream
//@loop 0 stream
    invariant
        !(*stream).st().broken,
        (*stream).st().lends == (*old(stream)).st().lends,
        (*stream).st().log =~= (*old(stream)).st().log
            + lend(seq![Ev::SeqBegin(Some(self@.len() as usize))] + seq_items(self@.take(it.index@)), (*old(stream)).st().lends),
//@looptail 0 stream
    proof {
        seq_items_push(self@.take(it.index@), *elem);
        assert(self@.take(it.index@ + 1) =~= self@.take(it.index@).push(*elem));
    }
//@end
//@impl sval | data::seq::{impl<T: Value, const N: usize> Value for [T; N]}
//@header impl<T: Value, const N: usize> ValueStream for [T; N]
//@only stream
//@sub self as &'a \[T\] => slice_of(self)
//@end
//@impl sval | data::seq::alloc_support::{impl<T: Value> Value for Vec<T>}
//@header impl<T: Value> ValueStream for Vec<T>
//@only stream
//@sub \(&\*\*self\) => self.as_slice()
//@end
//@impl sval | data::number::{impl Value for u8}
//@header impl ValueStream for u8
//@only stream
//@end
//@impl sval | data::number::{impl Value for u16}
//@header impl ValueStream for u16
//@only stream
//@end
//@impl sval | data::number::{impl Value for u32}
//@header impl ValueStream for u32
//@only stream
//@end
//@impl sval | data::number::{impl Value for u64}
//@header impl ValueStream for u64
//@only stream
//@end
//@impl sval | data::number::{impl Value for u128}
//@header impl ValueStream for u128
//@only stream
//@end
//@impl sval | data::number::{impl Value for i8}
//@header impl ValueStream for i8
//@only stream
//@end
//@impl sval | data::number::{impl Value for i16}
//@header impl ValueStream for i16
//@only stream
//@end
//@impl sval | data::number::{impl Value for i32}
//@header impl ValueStream for i32
//@only stream
//@end
//@impl sval | data::number::{impl Value for i64}
//@header impl ValueStream for i64
//@only stream
//@end
//@impl sval | data::number::{impl Value for i128}
//@header impl ValueStream for i128
//@only stream
//@end
//@impl sval | data::number::{impl Value for f32}
//@header impl ValueStream for f32
//@only stream
//@end
//@impl sval | data::number::{impl Value for f64}
//@header impl ValueStream for f64
//@only stream
//@end
}
pub mod maps {
use super::*;
//@impl sval | data::map::{impl<K: Value, V: Value> Value for MapSlice<K, V>}
//@header impl<K: Value, V: Value> ValueStream for MapSlice<K, V>
//@only stream
//@head stream
    proof { map_ends((*old(stream)).st().log, (*old(stream)).st().lends, self.0@); }
//@loop 0 stream
    invariant
        !(*stream).st().broken,
        (*stream).st().lends == (*old(stream)).st().lends,
        (*stream).st().log == (*old(stream)).st().log
            + lend(seq![Ev::MapBegin(Some(self.0@.len() as usize))] + map_items(self.0@.take(it.index@)), (*old(stream)).st().lends),
//@looptail 0 stream
    proof {
        map_step((*old(stream)).st().log, seq![Ev::MapBegin(Some(self.0@.len() as usize))], (*old(stream)).st().lends, self.0@, it.index@);
    }
//@end
//@impl sval | data::map::alloc_support::{impl<K: Value, V: Value> Value for BTreeMap<K, V>}
//@header impl<K: Value, V: Value> ValueStream for BTreeMap<K, V>
//@only stream
//@sub \bin (it:\s*)?self\b => in \1 self.entries().iter()
//@head stream
    proof { map_ends((*old(stream)).st().log, (*old(stream)).st().lends, self@); }
//@loop 0 stream
    invariant
        !(*stream).st().broken,
        (*stream).st().lends == (*old(stream)).st().lends,
        (*stream).st().log == (*old(stream)).st().log
            + lend(seq![Ev::MapBegin(Some(self@.len() as usize))] + map_items(self@.take(it.index@)), (*old(stream)).st().lends),
//@looptail 0 stream
    proof {
        map_step((*old(stream)).st().log, seq![Ev::MapBegin(Some(self@.len() as usize))], (*old(stream)).st().lends, self@, it.index@);
    }
//@end
//@impl sval | data::map::std_support::{impl<K: Value, V: Value, H: BuildHasher> Value for HashMap<K, V, H>}
//@header impl<K: Value, V: Value, H> ValueStream for HashMap<K, V, H>
//@only stream
//@sub \bin (it:\s*)?self\b => in \1 self.entries().iter()
//@head stream
    proof { map_ends((*old(stream)).st().log, (*old(stream)).st().lends, self@); }
//@loop 0 stream
    invariant
        !(*stream).st().broken,
        (*stream).st().lends == (*old(stream)).st().lends,
        (*stream).st().log == (*old(stream)).st().log
            + lend(seq![Ev::MapBegin(Some(self@.len() as usize))] + map_items(self@.take(it.index@)), (*old(stream)).st().lends),
//@looptail 0 stream
    proof {
        map_step((*old(stream)).st().log, seq![Ev::MapBegin(Some(self@.len() as usize))], (*old(stream)).st().lends, self@, it.index@);
    }
//@end
}
pub mod tuples {
use super::*;
//@include tuples.rs
}
}
fn main() {}
