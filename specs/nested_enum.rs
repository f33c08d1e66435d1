// C18: enums inside enums.
//
// A flat enum queues the variants that are themselves enums until its value is known, and then
// recurses through them.  `head` is the calls made so far, with the queued variants; the contracts
// here are the ones specs/nested_flat.rs gives FlatStreamEnum.  The type of a nested enum's stream
// is spelled as the type of its parent's.
use vstd::prelude::*;
verus! {
//@include data.rs
pub open spec fn olo(o: Option<Label>) -> Option<LabelV> { match o { Some(t) => Some(t@), None => None } }
pub open spec fn oio(o: Option<Index>) -> Option<IndexV> { match o { Some(t) => Some(t@), None => None } }
pub trait Value { spec fn part(&self) -> nat; spec fn fails(&self) -> bool; }
pub mod sval_ref { pub trait ValueRef<'sval>: super::Value {} }
pub ghost enum NCall { Begin, Tag(Option<Tag>, Option<LabelV>, Option<IndexV>), Tagged(Option<Tag>, Option<LabelV>, Option<IndexV>, nat),
    Tuple(Option<Tag>, Option<LabelV>, Option<IndexV>, Option<usize>), Record(Option<Tag>, Option<LabelV>, Option<IndexV>, Option<usize>),
    Nested(Option<Tag>, Option<LabelV>, Option<IndexV>), Empty }
pub uninterp spec fn made<T>(o: T) -> Seq<NCall>;
pub mod sval { pub use super::*; }
pub mod flat_enum {
pub mod sval { pub use super::super::*; }
use super::{NCall, made, Value, olo, oio, sval_ref, LabelV, IndexV};
use vstd::prelude::*;
pub struct Error;
pub type Result<T = (), E = Error> = core::result::Result<T, E>;
impl Error { #[verifier::external_body] pub fn invalid_value(msg: &'static str) -> Error { Error } }
// cannot be constructed in the code; nothing here relies on that
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Unsupported<T>(core::marker::PhantomData<T>);
// specs/nested_flat.rs proves this contract
#[verifier::external_body]
pub fn owned_label(label: sval::Label) -> (r: Result<sval::Label<'static>>) ensures r matches Ok(l) && l@ == label@, { unimplemented!() }
// assumed: std
pub mod alloc { pub mod collections {
    use vstd::prelude::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct VecDeque<T> { v: Vec<T> }
    impl<T> View for VecDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
    impl<T> VecDeque<T> {
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty(), { unimplemented!() }
        #[verifier::external_body] pub fn push_back(&mut self, t: T) ensures (*final(self))@ == (*old(self))@.push(t), { unimplemented!() }
        #[verifier::external_body] pub fn push_front(&mut self, t: T) ensures (*final(self))@ == seq![t] + (*old(self))@, { unimplemented!() }
        #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>)
            ensures match r { Some(t) => (*old(self))@.len() > 0 && t == (*old(self))@[0] && (*final(self))@ == (*old(self))@.skip(1), None => (*old(self))@.len() == 0 && (*final(self))@ == (*old(self))@ }, { unimplemented!() }
        #[verifier::external_body] pub fn pop_back(&mut self) -> (r: Option<T>)
            ensures match r { Some(t) => (*old(self))@.len() > 0 && t == (*old(self))@.last() && (*final(self))@ == (*old(self))@.drop_last(), None => (*old(self))@.len() == 0 && (*final(self))@ == (*old(self))@ }, { unimplemented!() }
        #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), { unimplemented!() }
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), { unimplemented!() }
    }
} }
pub trait Stepped<'sval>: Sized { type Ok; spec fn calls(&self) -> Seq<NCall>; spec fn steady(&self) -> bool; }
pub trait StreamEnum<'sval>: Sized {
    type Ok;
    type Tuple: Stepped<'sval>;
    type Record: Stepped<'sval>;
    spec fn head(&self) -> Seq<NCall>;
    spec fn steady(&self) -> bool;
    fn tag(self, tag: Option<sval::Tag>, label: Option<sval::Label>, index: Option<sval::Index>) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == self.head().push(NCall::Tag(tag, olo(label), oio(index))), self.steady() ==> r.is_ok();
    fn tagged<V: sval_ref::ValueRef<'sval>>(self, tag: Option<sval::Tag>, label: Option<sval::Label>, index: Option<sval::Index>, value: V) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == self.head().push(NCall::Tagged(tag, olo(label), oio(index), value.part())), self.steady() && !value.fails() ==> r.is_ok();
    fn tagged_computed<V: Value>(self, tag: Option<sval::Tag>, label: Option<sval::Label>, index: Option<sval::Index>, value: V) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == self.head().push(NCall::Tagged(tag, olo(label), oio(index), value.part())), self.steady() && !value.fails() ==> r.is_ok();
    fn tuple_begin(self, tag: Option<sval::Tag>, label: Option<sval::Label>, index: Option<sval::Index>, num_entries: Option<usize>) -> (r: Result<Self::Tuple>)
        ensures r matches Ok(o) ==> o.calls() == self.head().push(NCall::Tuple(tag, olo(label), oio(index), num_entries)) && (self.steady() ==> o.steady()), self.steady() ==> r.is_ok();
    fn record_begin(self, tag: Option<sval::Tag>, label: Option<sval::Label>, index: Option<sval::Index>, num_entries: Option<usize>) -> (r: Result<Self::Record>)
        ensures r matches Ok(o) ==> o.calls() == self.head().push(NCall::Record(tag, olo(label), oio(index), num_entries)) && (self.steady() ==> o.steady()), self.steady() ==> r.is_ok();
    // a nested enum is handed to `variant`, once, as a stream of its own
    fn nested<F: FnOnce(Self) -> Result<Self::Ok>>(self, tag: Option<sval::Tag>, label: Option<sval::Label>, index: Option<sval::Index>, variant: F) -> (r: Result<Self::Ok>)
        requires forall|x: Self| x.head() == self.head().push(NCall::Nested(tag, olo(label), oio(index))) ==> #[trigger] variant.requires((x,)),
        ensures
            r matches Ok(o) ==> exists|x: Self, o2: Self::Ok| x.head() == self.head().push(NCall::Nested(tag, olo(label), oio(index))) && #[trigger] variant.ensures((x,), Ok(o2)) && made(o) == made(o2),
            self.steady() && r is Err ==> exists|x: Self, e: Error| x.head() == self.head().push(NCall::Nested(tag, olo(label), oio(index))) && x.steady() && #[trigger] variant.ensures((x,), Err(e));
    fn empty(self) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == self.head().push(NCall::Empty), self.steady() ==> r.is_ok();
}
//@use sval_nested | flat_enum::NestedVariant
//@use sval_nested | flat_enum::Queue
//@use sval_nested | flat_enum::FlatStreamEnum
impl NestedVariant { pub open spec fn call(&self) -> NCall { NCall::Nested(self.tag, olo(self.label), oio(self.index)) } }
impl Queue {
//@fn sval_nested | flat_enum::{impl ::core::default::Default for Queue}::default
//@sub ::core::default::Default::default\(\) => alloc::collections::VecDeque::new()
//@spec
    ensures r.inner@ == Seq::<NestedVariant>::empty(),
//@end
//@fn sval_nested | flat_enum::{impl Queue}::push_back
//@spec
    ensures r is Ok, (*final(self)).inner@ == (*old(self)).inner@.push(variant),
//@end
//@fn sval_nested | flat_enum::{impl Queue}::pop_front
//@spec
    ensures match r { Some(t) => (*old(self)).inner@.len() > 0 && t == (*old(self)).inner@[0] && (*final(self)).inner@ == (*old(self)).inner@.skip(1), None => (*old(self)).inner@.len() == 0 && (*final(self)).inner@ == (*old(self)).inner@ },
//@end
//@fn sval_nested | flat_enum::{impl Queue}::is_empty
//@spec
    ensures r == (self.inner@.len() == 0),
//@end
}
pub open spec fn queued(q: Seq<NestedVariant>) -> Seq<NCall> { Seq::new(q.len(), |i: int| q[i].call()) }
pub proof fn queue_next(h: Seq<NCall>, q: Seq<NestedVariant>)
    requires q.len() > 0,
    ensures h.push(q[0].call()) + queued(q.skip(1)) == h + queued(q),
{ assert(h.push(q[0].call()) + queued(q.skip(1)) =~= h + queued(q)); }
// the streams that the nested variants are given to
pub open spec fn below<'sval, S: StreamEnum<'sval>>(a: FlatStreamEnum<S>, x: FlatStreamEnum<S>) -> bool {
    x.head() == a.head() && x.queue.inner@.len() < a.queue.inner@.len()
}
impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S> {
    pub open spec fn head(&self) -> Seq<NCall> { self.stream.head() + queued(self.queue.inner@) }
    pub open spec fn nested(&self) -> bool { self.queue.inner@.len() > 0 }
    pub open spec fn steady(&self) -> bool { self.stream.steady() }
//@fn sval_nested | flat_enum::{impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S>}::new
//@sub Default::default\(\) => Queue::default()
//@spec
    ensures r.head() =~= stream.head(), !r.nested(), r.steady() == stream.steady(),
//@end
//@fn sval_nested | flat_enum::{impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S>}::push
//@spec
    ensures r.is_ok(), (*final(self)).head() =~= (*old(self)).head().push(NCall::Nested(tag, olo(label), oio(index))), (*final(self)).nested(), (*final(self)).steady() == (*old(self)).steady(),
//@end
//@fn sval_nested | flat_enum::{impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S>}::ensure_not_nested
//@spec
    ensures r.is_ok() == !self.nested(),
//@end
//@fn sval_nested | flat_enum::{impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S>}::value_or_recurse
//@sub <S::Nested as StreamEnum<'sval>>::Ok => S::Ok
//@sub S::Nested => S
//@head
    proof { if self.nested() { queue_next(self.stream.head(), self.queue.inner@); } }
//@closure 1
S -> (q: Result<S::Ok>)
    requires $1.head() == self.stream.head().push(self.queue.inner@[0].call())
    ensures nested.ensures((FlatStreamEnum { stream: $1, queue: self_.queue }, input), q)
//@spec
    requires forall|x: Self| #[trigger] value.requires((x, input)), forall|x: Self| below(self, x) ==> #[trigger] nested.requires((x, input)),
    ensures
        !self.nested() ==> exists|x: Self| x.head() == self.head() && x.stream == self.stream && #[trigger] value.ensures((x, input), r),
        self.nested() ==> match r {
            Ok(o) => exists|x: Self, o2: S::Ok| below(self, x) && #[trigger] nested.ensures((x, input), Ok(o2)) && made(o) == made(o2),
            Err(_) => self.steady() ==> exists|x: Self, e: Error| below(self, x) && x.steady() && #[trigger] nested.ensures((x, input), Err(e)),
        },
//@end
//@fn sval_nested | flat_enum::{impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S>}::end
//@closure 2
Self; () -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == $1.stream.head().push(NCall::Empty), $1.steady() && !false ==> q.is_ok()
===
Self; () -> (q: Result<S::Ok>)
    requires below(self, $1)
    ensures q matches Ok(o) ==> made(o) == $1.head().push(NCall::Empty), $1.steady() && !false ==> q.is_ok()
//@spec
    ensures r matches Ok(o) ==> made(o) == self.head().push(NCall::Empty), self.steady() && !false ==> r.is_ok(),
    decreases self.queue.inner@.len(),
//@end
//@fn sval_nested | flat_enum::{impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S>}::tag
//@sub Self::Ok => S::Ok
//@sub \bStream::(\w+)\(stream, => stream.\1(
//@closure 2
Self; (Option<sval::Tag>, Option<sval::Label<'_>>, Option<sval::Index>) -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == $1.stream.head().push(NCall::Tag($2.0, olo($2.1), oio($2.2))), $1.steady() && !false ==> q.is_ok()
===
Self; (Option<sval::Tag>, Option<sval::Label<'_>>, Option<sval::Index>) -> (q: Result<S::Ok>)
    requires below(self, $1)
    ensures q matches Ok(o) ==> made(o) == $1.head().push(NCall::Tag($2.0, olo($2.1), oio($2.2))), $1.steady() && !false ==> q.is_ok()
//@spec
    ensures r matches Ok(o) ==> made(o) == self.head().push(NCall::Tag(tag, olo(label), oio(index))), self.steady() && !false ==> r.is_ok(),
    decreases self.queue.inner@.len(),
//@end
//@fn sval_nested | flat_enum::{impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S>}::tagged
//@sub Self::Ok => S::Ok
//@sub \bStream::(\w+)\(stream, => stream.\1(
//@closure 2
Self; (V, Option<sval::Tag>, Option<sval::Label<'_>>, Option<sval::Index>) -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == $1.stream.head().push(NCall::Tagged($2.1, olo($2.2), oio($2.3), $2.0.part())), $1.steady() && !$2.0.fails() ==> q.is_ok()
===
Self; (V, Option<sval::Tag>, Option<sval::Label<'_>>, Option<sval::Index>) -> (q: Result<S::Ok>)
    requires below(self, $1)
    ensures q matches Ok(o) ==> made(o) == $1.head().push(NCall::Tagged($2.1, olo($2.2), oio($2.3), $2.0.part())), $1.steady() && !$2.0.fails() ==> q.is_ok()
//@spec
    ensures r matches Ok(o) ==> made(o) == self.head().push(NCall::Tagged(tag, olo(label), oio(index), value.part())), self.steady() && !value.fails() ==> r.is_ok(),
    decreases self.queue.inner@.len(),
//@end
//@fn sval_nested | flat_enum::{impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S>}::tagged_computed
//@sub Self::Ok => S::Ok
//@sub \bStream::(\w+)\(stream, => stream.\1(
//@closure 2
Self; (V, Option<sval::Tag>, Option<sval::Label<'_>>, Option<sval::Index>) -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == $1.stream.head().push(NCall::Tagged($2.1, olo($2.2), oio($2.3), $2.0.part())), $1.steady() && !$2.0.fails() ==> q.is_ok()
===
Self; (V, Option<sval::Tag>, Option<sval::Label<'_>>, Option<sval::Index>) -> (q: Result<S::Ok>)
    requires below(self, $1)
    ensures q matches Ok(o) ==> made(o) == $1.head().push(NCall::Tagged($2.1, olo($2.2), oio($2.3), $2.0.part())), $1.steady() && !$2.0.fails() ==> q.is_ok()
//@spec
    ensures r matches Ok(o) ==> made(o) == self.head().push(NCall::Tagged(tag, olo(label), oio(index), value.part())), self.steady() && !value.fails() ==> r.is_ok(),
    decreases self.queue.inner@.len(),
//@end
//@fn sval_nested | flat_enum::{impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S>}::tuple_begin
//@sub Self::Tuple => S::Tuple
//@spec
    ensures r matches Ok(o) ==> !self.nested() && o.calls() == self.head().push(NCall::Tuple(tag, olo(label), oio(index), num_entries)) && (self.steady() ==> o.steady()), self.steady() && !self.nested() ==> r.is_ok(),
//@end
//@fn sval_nested | flat_enum::{impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S>}::record_begin
//@sub Self::Record => S::Record
//@spec
    ensures r matches Ok(o) ==> !self.nested() && o.calls() == self.head().push(NCall::Record(tag, olo(label), oio(index), num_entries)) && (self.steady() ==> o.steady()), self.steady() && !self.nested() ==> r.is_ok(),
//@end
//@fn sval_nested | flat_enum::{impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S>}::null
//@sub Self::Ok => S::Ok
//@sub Self::(Seq|Map) => Unsupported<S::Ok>
//@spec
    ensures r.is_err(),
//@end
//@fn sval_nested | flat_enum::{impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S>}::bool
//@sub Self::Ok => S::Ok
//@sub Self::(Seq|Map) => Unsupported<S::Ok>
//@spec
    ensures r.is_err(),
//@end
//@fn sval_nested | flat_enum::{impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S>}::i64
//@sub Self::Ok => S::Ok
//@sub Self::(Seq|Map) => Unsupported<S::Ok>
//@spec
    ensures r.is_err(),
//@end
//@fn sval_nested | flat_enum::{impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S>}::f64
//@sub Self::Ok => S::Ok
//@sub Self::(Seq|Map) => Unsupported<S::Ok>
//@spec
    ensures r.is_err(),
//@end
//@fn sval_nested | flat_enum::{impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S>}::text_computed
//@sub Self::Ok => S::Ok
//@sub Self::(Seq|Map) => Unsupported<S::Ok>
//@spec
    ensures r.is_err(),
//@end
//@fn sval_nested | flat_enum::{impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S>}::seq_begin
//@sub Self::Ok => S::Ok
//@sub Self::(Seq|Map) => Unsupported<S::Ok>
//@spec
    ensures r.is_err(),
//@end
//@fn sval_nested | flat_enum::{impl<'sval, S: StreamEnum<'sval>> Stream<'sval> for FlatStreamEnum<S>}::map_begin
//@sub Self::Ok => S::Ok
//@sub Self::(Seq|Map) => Unsupported<S::Ok>
//@spec
    ensures r.is_err(),
//@end
}
}
fn main() {}
}
