// C13: streaming by reference sends what streaming the value sends (generated by lib/mkref.py).
use vstd::prelude::*;
verus! {
//@include stream.rs
//@include builtin.rs
pub fn slice_of<'a, T, const N: usize>(a: &'a [T; N]) -> (r: &'a [T]) ensures r@ == a@ { a }

// What the conversion methods of a value answer.
pub ghost struct Conv {
    pub tag: Option<Tag>, pub bool: Option<bool>, pub f32: Option<f32>, pub f64: Option<f64>,
    pub i8: Option<i8>, pub i16: Option<i16>, pub i32: Option<i32>, pub i64: Option<i64>, pub i128: Option<i128>,
    pub u8: Option<u8>, pub u16: Option<u16>, pub u32: Option<u32>, pub u64: Option<u64>, pub u128: Option<u128>,
    pub text: Option<Seq<char>>, pub binary: Option<Seq<u8>>,
}
pub open spec fn os(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn ob(o: Option<&[u8]>) -> Option<Seq<u8>> { match o { Some(s) => Some(s@), None => None } }
pub trait FullValue: ValueStream {
    spec fn conv(&self) -> Conv;
    fn tag(&self) -> (r: Option<Tag>) ensures r == self.conv().tag;
    fn to_bool(&self) -> (r: Option<bool>) ensures r == self.conv().bool;
    fn to_f32(&self) -> (r: Option<f32>) ensures r == self.conv().f32;
    fn to_f64(&self) -> (r: Option<f64>) ensures r == self.conv().f64;
    fn to_i8(&self) -> (r: Option<i8>) ensures r == self.conv().i8;
    fn to_i16(&self) -> (r: Option<i16>) ensures r == self.conv().i16;
    fn to_i32(&self) -> (r: Option<i32>) ensures r == self.conv().i32;
    fn to_i64(&self) -> (r: Option<i64>) ensures r == self.conv().i64;
    fn to_i128(&self) -> (r: Option<i128>) ensures r == self.conv().i128;
    fn to_u8(&self) -> (r: Option<u8>) ensures r == self.conv().u8;
    fn to_u16(&self) -> (r: Option<u16>) ensures r == self.conv().u16;
    fn to_u32(&self) -> (r: Option<u32>) ensures r == self.conv().u32;
    fn to_u64(&self) -> (r: Option<u64>) ensures r == self.conv().u64;
    fn to_u128(&self) -> (r: Option<u128>) ensures r == self.conv().u128;
    fn to_text(&self) -> (r: Option<&str>) ensures os(r) == self.conv().text;
    fn to_binary(&self) -> (r: Option<&[u8]>) ensures ob(r) == self.conv().binary;
}
impl<'a, T: Value + ?Sized> Value for &'a T { open spec fn evs(&self) -> Seq<Ev> { (**self).evs() } }
impl<T: Value + ?Sized> Value for Box<T> { open spec fn evs(&self) -> Seq<Ev> { (**self).evs() } }

// The trait: the events of the value itself, lent for as long as the stream asks ('sval).
pub trait ValueRef<'sval>: Value {
    fn stream_ref<S: Stream<'sval> + ?Sized>(&self, stream: &mut S) -> (r: Result)
        requires !(*old(stream)).st().broken,
        ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(self.evs(), (*old(stream)).st().lends));
}
pub struct Ref<V: ?Sized>(pub V);
impl<V: Value> Value for Ref<V> { open spec fn evs(&self) -> Seq<Ev> { self.0.evs() } }

pub mod wrapper {
use super::*;
broadcast use {lend_lend, append_empty};
impl<V> Ref<V> {
//@fn sval_ref | {impl<V> Ref<V>}::new
//@spec
    ensures r.0 == value,
//@end
//@fn sval_ref | {impl<V> Ref<V>}::inner
//@spec
    ensures *r == self.0,
//@end
//@fn sval_ref | {impl<V> Ref<V>}::into_inner
//@spec
    ensures r == self.0,
//@end
}
//@fn sval_ref | to_ref
//@sub sval::Value => Value
//@spec
    ensures r.0 == value,
//@end
//@impl sval_ref | {impl<V: sval::Value> sval::Value for Ref<V>}
//@header impl<V: ValueStream> ValueStream for Ref<V>
//@only stream
//@end
//@impl sval_ref | {impl<V: sval::Value> sval::Value for Ref<V>}
//@header impl<V: FullValue> FullValue for Ref<V>
//@skip stream
//@sub sval::Tag => Tag
//@ghost
    open spec fn conv(&self) -> Conv { self.0.conv() }
//@end
//@impl sval_ref | {impl<'sval, V: sval::Value + ?Sized> ValueRef<'sval> for Ref<&'sval V>}
//@header impl<'sval, V: ValueStream + ?Sized> ValueRef<'sval> for Ref<&'sval V>
//@end
//@impl sval_ref | {impl<'sval, 'a, T: ValueRef<'sval> + ?Sized> ValueRef<'sval> for &'a T}
//@end
//@impl sval_ref | alloc_support::{impl<'sval, T: ValueRef<'sval> + ?Sized> ValueRef<'sval> for Box<T>}
//@end
}
pub use wrapper::*;

//@fn sval_ref | stream_ref
//@spec
    requires !(*old(stream)).st().broken,
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(value.evs(), (*old(stream)).st().lends)),
//@end

pub mod seqs {
use super::*;
broadcast use {lend_push, append_empty, append_assoc, lend_concat, seq_items_all};
//@impl sval_ref | seq::{impl<'sval, T: ValueRef<'sval>> ValueRef<'sval> for [T]}
//@sub crate::stream_ref => stream_ref
//@loop 0 stream_ref
    invariant
        !(*stream).st().broken,
        (*stream).st().lends == (*old(stream)).st().lends,
        (*stream).st().log =~= (*old(stream)).st().log
            + lend(seq![Ev::SeqBegin(Some(self@.len() as usize))] + seq_items(self@.take(it.index@)), (*old(stream)).st().lends),
//@looptail 0 stream_ref
    proof {
        seq_items_push(self@.take(it.index@), *elem);
        assert(self@.take(it.index@ + 1) =~= self@.take(it.index@).push(*elem));
    }
//@end
//@impl sval_ref | seq::{impl<'sval, T: ValueRef<'sval>, const N: usize> ValueRef<'sval> for [T; N]}
//@sub crate::stream_ref => stream_ref
//@sub self\.len\(\) => slice_of(self).len()
//@sub \bin (it:\s*)?self\b => in \1 slice_of(self).iter()
//@loop 0 stream_ref
    invariant
        !(*stream).st().broken,
        (*stream).st().lends == (*old(stream)).st().lends,
        (*stream).st().log =~= (*old(stream)).st().log
            + lend(seq![Ev::TaggedBegin(Some(tags::CONSTANT_SIZE), None, None)] + (seq![Ev::SeqBegin(Some(self@.len() as usize))] + seq_items(self@.take(it.index@))), (*old(stream)).st().lends),
//@looptail 0 stream_ref
    proof {
        seq_items_push(self@.take(it.index@), *elem);
        assert(self@.take(it.index@ + 1) =~= self@.take(it.index@).push(*elem));
    }
//@end
//@impl sval_ref | seq::alloc_support::{impl<'sval, T: ValueRef<'sval>> ValueRef<'sval> for Vec<T>}
//@sub \(&\*\*self\) => self.as_slice()
//@end
}
pub mod tuples {
use super::*;
pub open spec fn tuple_item(i: int, v: Seq<Ev>) -> Seq<Ev> {
    seq![Ev::TupleValueBegin(None, offset_v(i))] + v + seq![Ev::TupleValueEnd(None, offset_v(i))]
}
pub open spec fn tuple_begin(n: int) -> Seq<Ev> { seq![Ev::TupleBegin(None, None, None, Some(n as usize))] }
pub open spec fn tuple_end() -> Seq<Ev> { seq![Ev::TupleEnd(None, None, None)] }
// one element, seen from the log
pub proof fn tuple_step(o: Seq<Ev>, x: Seq<Ev>, l: bool, i: int, v: Seq<Ev>)
    ensures (((o + lend(x, l)) + seq![Ev::TupleValueBegin(None, offset_v(i))]) + lend(v, l)) + seq![Ev::TupleValueEnd(None, offset_v(i))]
        == o + lend(x + tuple_item(i, v), l),
{ assert((((o + lend(x, l)) + seq![Ev::TupleValueBegin(None, offset_v(i))]) + lend(v, l)) + seq![Ev::TupleValueEnd(None, offset_v(i))]
        =~= o + lend(x + tuple_item(i, v), l)); }
pub proof fn tuple_first(o: Seq<Ev>, n: int, l: bool)
    ensures o + tuple_begin(n) == o + lend(tuple_begin(n), l),
{ assert(tuple_begin(n) =~= lend(tuple_begin(n), l)); }
pub proof fn tuple_last(o: Seq<Ev>, x: Seq<Ev>, l: bool)
    ensures (o + lend(x, l)) + tuple_end() == o + lend(x + tuple_end(), l),
{ assert((o + lend(x, l)) + tuple_end() =~= o + lend(x + tuple_end(), l)); }
impl<T0: Value> Value for (T0,) {
    open spec fn evs(&self) -> Seq<Ev> { (tuple_begin(1) + tuple_item(0, self.0.evs())) + tuple_end() }
}
//@impl sval_ref | seq::{impl<'sval, T0: ValueRef<'sval>> ValueRef<'sval> for (T0,)}
//@sub crate::stream_ref => stream_ref
//@sub sval::tags => tags
//@head stream_ref
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 1, l);
        tuple_step(o, tuple_begin(1), l, 0, self.0.evs());
        tuple_last(o, (tuple_begin(1) + tuple_item(0, self.0.evs())), l);
    }
//@end
impl<T0: Value, T1: Value> Value for (T0, T1,) {
    open spec fn evs(&self) -> Seq<Ev> { ((tuple_begin(2) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_end() }
}
//@impl sval_ref | seq::{impl<'sval, T0: ValueRef<'sval>, T1: ValueRef<'sval>> ValueRef<'sval> for (T0, T1,)}
//@sub crate::stream_ref => stream_ref
//@sub sval::tags => tags
//@head stream_ref
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 2, l);
        tuple_step(o, tuple_begin(2), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(2) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_last(o, ((tuple_begin(2) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value> Value for (T0, T1, T2,) {
    open spec fn evs(&self) -> Seq<Ev> { (((tuple_begin(3) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_end() }
}
//@impl sval_ref | seq::{impl<'sval, T0: ValueRef<'sval>, T1: ValueRef<'sval>, T2: ValueRef<'sval>> ValueRef<'sval> for (T0, T1, T2,)}
//@sub crate::stream_ref => stream_ref
//@sub sval::tags => tags
//@head stream_ref
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 3, l);
        tuple_step(o, tuple_begin(3), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(3) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(3) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_last(o, (((tuple_begin(3) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value> Value for (T0, T1, T2, T3,) {
    open spec fn evs(&self) -> Seq<Ev> { ((((tuple_begin(4) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_end() }
}
//@impl sval_ref | seq::{impl<'sval, T0: ValueRef<'sval>, T1: ValueRef<'sval>, T2: ValueRef<'sval>, T3: ValueRef<'sval>> ValueRef<'sval> for (T0, T1, T2, T3,)}
//@sub crate::stream_ref => stream_ref
//@sub sval::tags => tags
//@head stream_ref
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 4, l);
        tuple_step(o, tuple_begin(4), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(4) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(4) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(4) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_last(o, ((((tuple_begin(4) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value> Value for (T0, T1, T2, T3, T4,) {
    open spec fn evs(&self) -> Seq<Ev> { (((((tuple_begin(5) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_end() }
}
//@impl sval_ref | seq::{impl<'sval, T0: ValueRef<'sval>, T1: ValueRef<'sval>, T2: ValueRef<'sval>, T3: ValueRef<'sval>, T4: ValueRef<'sval>> ValueRef<'sval> for (T0, T1, T2, T3, T4,)}
//@sub crate::stream_ref => stream_ref
//@sub sval::tags => tags
//@head stream_ref
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 5, l);
        tuple_step(o, tuple_begin(5), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(5) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(5) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(5) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(5) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_last(o, (((((tuple_begin(5) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value> Value for (T0, T1, T2, T3, T4, T5,) {
    open spec fn evs(&self) -> Seq<Ev> { ((((((tuple_begin(6) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_end() }
}
//@impl sval_ref | seq::{impl<'sval, T0: ValueRef<'sval>, T1: ValueRef<'sval>, T2: ValueRef<'sval>, T3: ValueRef<'sval>, T4: ValueRef<'sval>, T5: ValueRef<'sval>> ValueRef<'sval> for (T0, T1, T2, T3, T4, T5,)}
//@sub crate::stream_ref => stream_ref
//@sub sval::tags => tags
//@head stream_ref
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 6, l);
        tuple_step(o, tuple_begin(6), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(6) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(6) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(6) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(6) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(6) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_last(o, ((((((tuple_begin(6) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value> Value for (T0, T1, T2, T3, T4, T5, T6,) {
    open spec fn evs(&self) -> Seq<Ev> { (((((((tuple_begin(7) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_end() }
}
//@impl sval_ref | seq::{impl<'sval, T0: ValueRef<'sval>, T1: ValueRef<'sval>, T2: ValueRef<'sval>, T3: ValueRef<'sval>, T4: ValueRef<'sval>, T5: ValueRef<'sval>, T6: ValueRef<'sval>> ValueRef<'sval> for (T0, T1, T2, T3, T4, T5, T6,)}
//@sub crate::stream_ref => stream_ref
//@sub sval::tags => tags
//@head stream_ref
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 7, l);
        tuple_step(o, tuple_begin(7), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(7) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(7) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(7) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(7) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(7) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(7) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_last(o, (((((((tuple_begin(7) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7,) {
    open spec fn evs(&self) -> Seq<Ev> { ((((((((tuple_begin(8) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_end() }
}
//@impl sval_ref | seq::{impl<'sval, T0: ValueRef<'sval>, T1: ValueRef<'sval>, T2: ValueRef<'sval>, T3: ValueRef<'sval>, T4: ValueRef<'sval>, T5: ValueRef<'sval>, T6: ValueRef<'sval>, T7: ValueRef<'sval>> ValueRef<'sval> for (T0, T1, T2, T3, T4, T5, T6, T7,)}
//@sub crate::stream_ref => stream_ref
//@sub sval::tags => tags
//@head stream_ref
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 8, l);
        tuple_step(o, tuple_begin(8), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(8) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(8) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(8) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(8) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(8) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(8) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_step(o, (((((((tuple_begin(8) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l, 7, self.7.evs());
        tuple_last(o, ((((((((tuple_begin(8) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8,) {
    open spec fn evs(&self) -> Seq<Ev> { (((((((((tuple_begin(9) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_end() }
}
//@impl sval_ref | seq::{impl<'sval, T0: ValueRef<'sval>, T1: ValueRef<'sval>, T2: ValueRef<'sval>, T3: ValueRef<'sval>, T4: ValueRef<'sval>, T5: ValueRef<'sval>, T6: ValueRef<'sval>, T7: ValueRef<'sval>, T8: ValueRef<'sval>> ValueRef<'sval> for (T0, T1, T2, T3, T4, T5, T6, T7, T8,)}
//@sub crate::stream_ref => stream_ref
//@sub sval::tags => tags
//@head stream_ref
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 9, l);
        tuple_step(o, tuple_begin(9), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(9) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(9) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(9) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(9) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(9) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(9) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_step(o, (((((((tuple_begin(9) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l, 7, self.7.evs());
        tuple_step(o, ((((((((tuple_begin(9) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())), l, 8, self.8.evs());
        tuple_last(o, (((((((((tuple_begin(9) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,) {
    open spec fn evs(&self) -> Seq<Ev> { ((((((((((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_end() }
}
//@impl sval_ref | seq::{impl<'sval, T0: ValueRef<'sval>, T1: ValueRef<'sval>, T2: ValueRef<'sval>, T3: ValueRef<'sval>, T4: ValueRef<'sval>, T5: ValueRef<'sval>, T6: ValueRef<'sval>, T7: ValueRef<'sval>, T8: ValueRef<'sval>, T9: ValueRef<'sval>> ValueRef<'sval> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)}
//@sub crate::stream_ref => stream_ref
//@sub sval::tags => tags
//@head stream_ref
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 10, l);
        tuple_step(o, tuple_begin(10), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(10) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_step(o, (((((((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l, 7, self.7.evs());
        tuple_step(o, ((((((((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())), l, 8, self.8.evs());
        tuple_step(o, (((((((((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())), l, 9, self.9.evs());
        tuple_last(o, ((((((((((tuple_begin(10) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,) {
    open spec fn evs(&self) -> Seq<Ev> { (((((((((((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_end() }
}
//@impl sval_ref | seq::{impl<'sval, T0: ValueRef<'sval>, T1: ValueRef<'sval>, T2: ValueRef<'sval>, T3: ValueRef<'sval>, T4: ValueRef<'sval>, T5: ValueRef<'sval>, T6: ValueRef<'sval>, T7: ValueRef<'sval>, T8: ValueRef<'sval>, T9: ValueRef<'sval>, T10: ValueRef<'sval>> ValueRef<'sval> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)}
//@sub crate::stream_ref => stream_ref
//@sub sval::tags => tags
//@head stream_ref
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 11, l);
        tuple_step(o, tuple_begin(11), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(11) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_step(o, (((((((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l, 7, self.7.evs());
        tuple_step(o, ((((((((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())), l, 8, self.8.evs());
        tuple_step(o, (((((((((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())), l, 9, self.9.evs());
        tuple_step(o, ((((((((((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())), l, 10, self.10.evs());
        tuple_last(o, (((((((((((tuple_begin(11) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,) {
    open spec fn evs(&self) -> Seq<Ev> { ((((((((((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_end() }
}
//@impl sval_ref | seq::{impl<'sval, T0: ValueRef<'sval>, T1: ValueRef<'sval>, T2: ValueRef<'sval>, T3: ValueRef<'sval>, T4: ValueRef<'sval>, T5: ValueRef<'sval>, T6: ValueRef<'sval>, T7: ValueRef<'sval>, T8: ValueRef<'sval>, T9: ValueRef<'sval>, T10: ValueRef<'sval>, T11: ValueRef<'sval>> ValueRef<'sval> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)}
//@sub crate::stream_ref => stream_ref
//@sub sval::tags => tags
//@head stream_ref
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 12, l);
        tuple_step(o, tuple_begin(12), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(12) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_step(o, (((((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l, 7, self.7.evs());
        tuple_step(o, ((((((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())), l, 8, self.8.evs());
        tuple_step(o, (((((((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())), l, 9, self.9.evs());
        tuple_step(o, ((((((((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())), l, 10, self.10.evs());
        tuple_step(o, (((((((((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())), l, 11, self.11.evs());
        tuple_last(o, ((((((((((((tuple_begin(12) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value, T12: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12,) {
    open spec fn evs(&self) -> Seq<Ev> { (((((((((((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_end() }
}
//@impl sval_ref | seq::{impl<'sval, T0: ValueRef<'sval>, T1: ValueRef<'sval>, T2: ValueRef<'sval>, T3: ValueRef<'sval>, T4: ValueRef<'sval>, T5: ValueRef<'sval>, T6: ValueRef<'sval>, T7: ValueRef<'sval>, T8: ValueRef<'sval>, T9: ValueRef<'sval>, T10: ValueRef<'sval>, T11: ValueRef<'sval>, T12: ValueRef<'sval>> ValueRef<'sval> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12,)}
//@sub crate::stream_ref => stream_ref
//@sub sval::tags => tags
//@head stream_ref
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 13, l);
        tuple_step(o, tuple_begin(13), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(13) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_step(o, (((((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l, 7, self.7.evs());
        tuple_step(o, ((((((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())), l, 8, self.8.evs());
        tuple_step(o, (((((((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())), l, 9, self.9.evs());
        tuple_step(o, ((((((((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())), l, 10, self.10.evs());
        tuple_step(o, (((((((((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())), l, 11, self.11.evs());
        tuple_step(o, ((((((((((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())), l, 12, self.12.evs());
        tuple_last(o, (((((((((((((tuple_begin(13) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value, T12: Value, T13: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13,) {
    open spec fn evs(&self) -> Seq<Ev> { ((((((((((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_item(13, self.13.evs())) + tuple_end() }
}
//@impl sval_ref | seq::{impl<'sval, T0: ValueRef<'sval>, T1: ValueRef<'sval>, T2: ValueRef<'sval>, T3: ValueRef<'sval>, T4: ValueRef<'sval>, T5: ValueRef<'sval>, T6: ValueRef<'sval>, T7: ValueRef<'sval>, T8: ValueRef<'sval>, T9: ValueRef<'sval>, T10: ValueRef<'sval>, T11: ValueRef<'sval>, T12: ValueRef<'sval>, T13: ValueRef<'sval>> ValueRef<'sval> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13,)}
//@sub crate::stream_ref => stream_ref
//@sub sval::tags => tags
//@head stream_ref
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 14, l);
        tuple_step(o, tuple_begin(14), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(14) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_step(o, (((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l, 7, self.7.evs());
        tuple_step(o, ((((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())), l, 8, self.8.evs());
        tuple_step(o, (((((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())), l, 9, self.9.evs());
        tuple_step(o, ((((((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())), l, 10, self.10.evs());
        tuple_step(o, (((((((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())), l, 11, self.11.evs());
        tuple_step(o, ((((((((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())), l, 12, self.12.evs());
        tuple_step(o, (((((((((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())), l, 13, self.13.evs());
        tuple_last(o, ((((((((((((((tuple_begin(14) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_item(13, self.13.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value, T12: Value, T13: Value, T14: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14,) {
    open spec fn evs(&self) -> Seq<Ev> { (((((((((((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_item(13, self.13.evs())) + tuple_item(14, self.14.evs())) + tuple_end() }
}
//@impl sval_ref | seq::{impl<'sval, T0: ValueRef<'sval>, T1: ValueRef<'sval>, T2: ValueRef<'sval>, T3: ValueRef<'sval>, T4: ValueRef<'sval>, T5: ValueRef<'sval>, T6: ValueRef<'sval>, T7: ValueRef<'sval>, T8: ValueRef<'sval>, T9: ValueRef<'sval>, T10: ValueRef<'sval>, T11: ValueRef<'sval>, T12: ValueRef<'sval>, T13: ValueRef<'sval>, T14: ValueRef<'sval>> ValueRef<'sval> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14,)}
//@sub crate::stream_ref => stream_ref
//@sub sval::tags => tags
//@head stream_ref
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 15, l);
        tuple_step(o, tuple_begin(15), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(15) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_step(o, (((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l, 7, self.7.evs());
        tuple_step(o, ((((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())), l, 8, self.8.evs());
        tuple_step(o, (((((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())), l, 9, self.9.evs());
        tuple_step(o, ((((((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())), l, 10, self.10.evs());
        tuple_step(o, (((((((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())), l, 11, self.11.evs());
        tuple_step(o, ((((((((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())), l, 12, self.12.evs());
        tuple_step(o, (((((((((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())), l, 13, self.13.evs());
        tuple_step(o, ((((((((((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_item(13, self.13.evs())), l, 14, self.14.evs());
        tuple_last(o, (((((((((((((((tuple_begin(15) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_item(13, self.13.evs())) + tuple_item(14, self.14.evs())), l);
    }
//@end
impl<T0: Value, T1: Value, T2: Value, T3: Value, T4: Value, T5: Value, T6: Value, T7: Value, T8: Value, T9: Value, T10: Value, T11: Value, T12: Value, T13: Value, T14: Value, T15: Value> Value for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15,) {
    open spec fn evs(&self) -> Seq<Ev> { ((((((((((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_item(13, self.13.evs())) + tuple_item(14, self.14.evs())) + tuple_item(15, self.15.evs())) + tuple_end() }
}
//@impl sval_ref | seq::{impl<'sval, T0: ValueRef<'sval>, T1: ValueRef<'sval>, T2: ValueRef<'sval>, T3: ValueRef<'sval>, T4: ValueRef<'sval>, T5: ValueRef<'sval>, T6: ValueRef<'sval>, T7: ValueRef<'sval>, T8: ValueRef<'sval>, T9: ValueRef<'sval>, T10: ValueRef<'sval>, T11: ValueRef<'sval>, T12: ValueRef<'sval>, T13: ValueRef<'sval>, T14: ValueRef<'sval>, T15: ValueRef<'sval>> ValueRef<'sval> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15,)}
//@sub crate::stream_ref => stream_ref
//@sub sval::tags => tags
//@head stream_ref
    proof {
        let o = (*old(stream)).st().log;
        let l = (*old(stream)).st().lends;
        tuple_first(o, 16, l);
        tuple_step(o, tuple_begin(16), l, 0, self.0.evs());
        tuple_step(o, (tuple_begin(16) + tuple_item(0, self.0.evs())), l, 1, self.1.evs());
        tuple_step(o, ((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())), l, 2, self.2.evs());
        tuple_step(o, (((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())), l, 3, self.3.evs());
        tuple_step(o, ((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())), l, 4, self.4.evs());
        tuple_step(o, (((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())), l, 5, self.5.evs());
        tuple_step(o, ((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())), l, 6, self.6.evs());
        tuple_step(o, (((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())), l, 7, self.7.evs());
        tuple_step(o, ((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())), l, 8, self.8.evs());
        tuple_step(o, (((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())), l, 9, self.9.evs());
        tuple_step(o, ((((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())), l, 10, self.10.evs());
        tuple_step(o, (((((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())), l, 11, self.11.evs());
        tuple_step(o, ((((((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())), l, 12, self.12.evs());
        tuple_step(o, (((((((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())), l, 13, self.13.evs());
        tuple_step(o, ((((((((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_item(13, self.13.evs())), l, 14, self.14.evs());
        tuple_step(o, (((((((((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_item(13, self.13.evs())) + tuple_item(14, self.14.evs())), l, 15, self.15.evs());
        tuple_last(o, ((((((((((((((((tuple_begin(16) + tuple_item(0, self.0.evs())) + tuple_item(1, self.1.evs())) + tuple_item(2, self.2.evs())) + tuple_item(3, self.3.evs())) + tuple_item(4, self.4.evs())) + tuple_item(5, self.5.evs())) + tuple_item(6, self.6.evs())) + tuple_item(7, self.7.evs())) + tuple_item(8, self.8.evs())) + tuple_item(9, self.9.evs())) + tuple_item(10, self.10.evs())) + tuple_item(11, self.11.evs())) + tuple_item(12, self.12.evs())) + tuple_item(13, self.13.evs())) + tuple_item(14, self.14.evs())) + tuple_item(15, self.15.evs())), l);
    }
//@end
}
}
fn main() {}
