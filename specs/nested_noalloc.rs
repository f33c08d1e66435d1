// C18, C06: what sval_nested and sval_buffer do differently without an allocator: a label is kept
// whole or is an error, the queue of nested variants is always empty, and being out of room is an
// error and not a panic.
use vstd::prelude::*;
verus! {
pub use core::result::Result::{Ok, Err};
pub ghost struct LabelV { pub text: Seq<char>, pub tag: Option<Seq<char>> }
pub mod sval {
    use super::*;
    pub struct Error;
    pub struct Tag { pub data: &'static str }
    impl View for Tag { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.data@ } }
    pub open spec fn ot(o: Option<&Tag>) -> Option<Seq<char>> { match o { Some(t) => Some(t@), None => None } }
    // as proved in specs/index_noalloc.rs (C10)
    #[verifier::external_body]
    pub struct Label<'computed> { t: &'computed str }
    impl<'computed> View for Label<'computed> { type V = LabelV; uninterp spec fn view(&self) -> LabelV; }
    impl<'computed> Label<'computed> {
        pub uninterp spec fn is_static(&self) -> bool;
        #[verifier::external_body]
        pub fn new(label: &'static str) -> (r: Label<'computed>) ensures r@ == (LabelV { text: label@, tag: None }), r.is_static() { unimplemented!() }
        #[verifier::external_body]
        pub fn as_str(&self) -> (r: &str) ensures r@ == self@.text { unimplemented!() }
        #[verifier::external_body]
        pub fn as_static_str(&self) -> (r: Option<&'static str>) ensures r.is_some() == self.is_static(), r matches Some(s) ==> s@ == self@.text { unimplemented!() }
        #[verifier::external_body]
        pub fn tag(&self) -> (r: Option<&Tag>) ensures ot(r) == self@.tag { unimplemented!() }
        #[verifier::external_body]
        pub fn with_tag(self, tag: &Tag) -> (r: Self) ensures r@ == (LabelV { text: self@.text, tag: Some(tag@) }), r.is_static() == self.is_static() { unimplemented!() }
        #[verifier::external_body]
        pub fn clone(&self) -> (r: Self) ensures r@ == self@, r.is_static() == self.is_static() { unimplemented!() }
        #[verifier::external_body]
        pub fn try_to_owned(&self) -> (r: Result<Label<'static>, Error>) ensures r matches Ok(l) ==> l@ == self@ && l.is_static(), r.is_ok() == self.is_static() { unimplemented!() }
    }
}
// a panic that can't be reached
#[verifier::external_body]
pub fn not_reached(m: &'static str) -> ! requires false { unimplemented!() }

pub mod nested {
use super::*;
pub type Result<T = (), E = Error> = core::result::Result<T, E>;
pub struct Error(pub ErrorKind);
pub enum ErrorKind { InvalidValue { reason: &'static str }, NoAlloc { method: &'static str } }
impl Error {
//@fn sval_nested_noalloc | error::{impl Error}::invalid_value
//@spec
    ensures true,
//@end
//@fn sval_nested_noalloc | error::{impl Error}::no_alloc
//@sub (?s)::core::panicking::panic_fmt\(.*\)\s*; => not_reached(method);
//@spec
    ensures true,
//@end
}
//@fn sval_nested_noalloc | owned_label_ref
//@spec
    ensures r matches Ok(l) ==> l@ == label@, r.is_ok() == label.is_static(),
//@end
//@fn sval_nested_noalloc | owned_label
//@spec
    ensures r matches Ok(l) ==> l@ == label@, r.is_ok() == label.is_static(),
//@end
#[verifier::external_body]
pub struct NestedVariant { v: () }
pub struct Queue {}
impl Queue {
//@fn sval_nested_noalloc | flat_enum::{impl ::core::default::Default for Queue}::default
//@spec
    ensures true,
//@end
//@fn sval_nested_noalloc | flat_enum::{impl Queue}::push_back
//@spec
    ensures r is Err, // there's nowhere to put it
//@end
//@fn sval_nested_noalloc | flat_enum::{impl Queue}::pop_front
//@spec
    ensures r is None,
//@end
//@fn sval_nested_noalloc | flat_enum::{impl Queue}::is_empty
//@spec
    ensures r,
//@end
}
}
pub mod buffer {
use super::*;
pub struct Error(pub ErrorKind);
pub enum ErrorKind { InvalidValue { reason: &'static str }, OutsideContainer { method: &'static str }, NoAlloc { method: &'static str } }
impl Error {
//@fn sval_buffer_noalloc | error::{impl Error}::no_alloc
//@sub (?s)::core::panicking::panic_fmt\(.*\)\s*; => not_reached(method);
//@spec
    ensures true,
//@end
//@fn sval_buffer_noalloc | error::{impl Error}::invalid_value
//@spec
    ensures true,
//@end
//@fn sval_buffer_noalloc | error::{impl Error}::outside_container
//@spec
    ensures true,
//@end
}
}
}
fn main() {}
