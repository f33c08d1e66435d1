// C11: adapters hand on every call unchanged, and every error.
use vstd::prelude::*;
verus! {
//@include stream.rs
//@include canon.rs
//@include default_stream.rs stub

// What the conversion methods of a value answer.
pub ghost struct Conv {
    pub tag: Option<Tag>, pub bool: Option<bool>, pub f32: Option<f32>, pub f64: Option<f64>,
    pub i8: Option<i8>, pub i16: Option<i16>, pub i32: Option<i32>, pub i64: Option<i64>, pub i128: Option<i128>,
    pub u8: Option<u8>, pub u16: Option<u16>, pub u32: Option<u32>, pub u64: Option<u64>, pub u128: Option<u128>,
    pub text: Option<Seq<char>>, pub binary: Option<Seq<u8>>,
}
pub open spec fn os(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn ob(o: Option<&[u8]>) -> Option<Seq<u8>> { match o { Some(s) => Some(s@), None => None } }

pub trait FullValue: ValueStream {
    spec fn conv(&self) -> Conv;
    fn tag(&self) -> (r: Option<Tag>) ensures r == self.conv().tag;
    fn to_bool(&self) -> (r: Option<bool>) ensures r == self.conv().bool;
    fn to_f32(&self) -> (r: Option<f32>) ensures r == self.conv().f32;
    fn to_f64(&self) -> (r: Option<f64>) ensures r == self.conv().f64;
    fn to_i8(&self) -> (r: Option<i8>) ensures r == self.conv().i8;
    fn to_i16(&self) -> (r: Option<i16>) ensures r == self.conv().i16;
    fn to_i32(&self) -> (r: Option<i32>) ensures r == self.conv().i32;
    fn to_i64(&self) -> (r: Option<i64>) ensures r == self.conv().i64;
    fn to_i128(&self) -> (r: Option<i128>) ensures r == self.conv().i128;
    fn to_u8(&self) -> (r: Option<u8>) ensures r == self.conv().u8;
    fn to_u16(&self) -> (r: Option<u16>) ensures r == self.conv().u16;
    fn to_u32(&self) -> (r: Option<u32>) ensures r == self.conv().u32;
    fn to_u64(&self) -> (r: Option<u64>) ensures r == self.conv().u64;
    fn to_u128(&self) -> (r: Option<u128>) ensures r == self.conv().u128;
    fn to_text(&self) -> (r: Option<&str>) ensures os(r) == self.conv().text;
    fn to_binary(&self) -> (r: Option<&[u8]>) ensures ob(r) == self.conv().binary;
}

pub mod streams {
use super::*;
broadcast use {lend_lend, append_empty};

//@impl sval | stream::{impl<'sval, 'a, S: ?Sized> Stream<'sval> for &'a mut S where S: Stream<'sval>}
//@trait sval | stream::Stream
//@sub default_stream::tag\b => default_stream::tag_
//@ghost
    open spec fn st(&self) -> St { (**self).st() }
//@end

//@impl sval | stream::alloc_support::{impl<'sval, 'a, S: ?Sized> Stream<'sval> for Box<S> where S: Stream<'sval>}
//@trait sval | stream::Stream
//@sub default_stream::tag\b => default_stream::tag_
//@ghost
    open spec fn st(&self) -> St { (**self).st() }
//@end
}

pub mod values {
use super::*;
broadcast use {lend_lend, append_empty};
impl<'a, T: Value + ?Sized> Value for &'a T {
    open spec fn evs(&self) -> Seq<Ev> { (**self).evs() }
}
impl<T: Value + ?Sized> Value for Box<T> {
    open spec fn evs(&self) -> Seq<Ev> { (**self).evs() }
}
//@impl sval | value::{impl<'a, T: Value + ?Sized> Value for &'a T}
//@header impl<'a, T: ValueStream + ?Sized> ValueStream for &'a T
//@only stream
//@end
//@impl sval | value::{impl<'a, T: Value + ?Sized> Value for &'a T}
//@header impl<'a, T: FullValue + ?Sized> FullValue for &'a T
//@skip stream
//@ghost
    open spec fn conv(&self) -> Conv { (**self).conv() }
//@end
//@impl sval | value::alloc_support::{impl<T: Value + ?Sized> Value for Box<T>}
//@header impl<T: ValueStream + ?Sized> ValueStream for Box<T>
//@only stream
//@end
//@impl sval | value::alloc_support::{impl<T: Value + ?Sized> Value for Box<T>}
//@header impl<T: FullValue + ?Sized> FullValue for Box<T>
//@skip stream
//@ghost
    open spec fn conv(&self) -> Conv { (**self).conv() }
//@end
}

// The adapter behind `value_computed`: nothing it passes on is lent.
pub mod computed {
use super::*;
broadcast use {lend_lend, append_empty};
#[repr(transparent)]
pub struct Computed<S: ?Sized>(pub S);
//@impl sval | stream::{impl<'a, 'b, S: Stream<'a> + ?Sized> Stream<'b> for Computed<S>}
//@trait sval | stream::Stream
//@sub default_stream::tag\b => default_stream::tag_
//@elsewhere value
//@ghost
    open spec fn st(&self) -> St { St { log: self.0.st().log, broken: self.0.st().broken, lends: false } }
//@end
//@fn sval | stream::{impl<'a, 'b, S: Stream<'a> + ?Sized> Stream<'b> for Computed<S>}::value
//@as computed_value
//@sub (fn \w+)<V: => \1<'a, 'b, S: Stream<'a> + ?Sized, V:
//@free Computed<S>
//@spec
    requires !(*old(self)).st().broken,
    ensures sent((*old(self)).st(), (*final(self)).st(), r, lend(v.evs(), (*old(self)).st().lends)),
//@end
}

// sval_dynamic: `dyn Stream` and `dyn Value`, for every erased type R.
pub mod dynamic {
use super::*;
broadcast use {lend_lend, append_empty};
pub struct Erased<T>(pub T);

pub trait DispatchStream<'sval> {
    spec fn dst(&self) -> St;

    fn dispatch_value_computed(&mut self, v: &(impl Value + ?Sized)) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, lend(v.evs(), false));

    fn dispatch_null(&mut self) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::Null]);

    fn dispatch_bool(&mut self, value: bool) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::Bool(value)]);

    fn dispatch_text_begin(&mut self, num_bytes: Option<usize>) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::TextBegin(num_bytes)]);

    fn dispatch_text_fragment(&mut self, fragment: &'sval str) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::TextFragment(fragment@, (*old(self)).dst().lends)]);

    fn dispatch_text_fragment_computed(&mut self, fragment: &str) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::TextFragment(fragment@, false)]);

    fn dispatch_text_end(&mut self) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::TextEnd]);

    fn dispatch_binary_begin(&mut self, num_bytes: Option<usize>) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::BinaryBegin(num_bytes)]);

    fn dispatch_binary_fragment(&mut self, fragment: &'sval [u8]) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::BinaryFragment(fragment@, (*old(self)).dst().lends)]);

    fn dispatch_binary_fragment_computed(&mut self, fragment: &[u8]) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::BinaryFragment(fragment@, false)]);

    fn dispatch_binary_end(&mut self) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::BinaryEnd]);

    fn dispatch_u8(&mut self, value: u8) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::U8(value)]);

    fn dispatch_u16(&mut self, value: u16) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::U16(value)]);

    fn dispatch_u32(&mut self, value: u32) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::U32(value)]);

    fn dispatch_u64(&mut self, value: u64) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::U64(value)]);

    fn dispatch_u128(&mut self, value: u128) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::U128(value)]);

    fn dispatch_i8(&mut self, value: i8) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::I8(value)]);

    fn dispatch_i16(&mut self, value: i16) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::I16(value)]);

    fn dispatch_i32(&mut self, value: i32) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::I32(value)]);

    fn dispatch_i64(&mut self, value: i64) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::I64(value)]);

    fn dispatch_i128(&mut self, value: i128) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::I128(value)]);

    fn dispatch_f32(&mut self, value: f32) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::F32(value)]);

    fn dispatch_f64(&mut self, value: f64) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::F64(value)]);

    fn dispatch_map_begin(&mut self, num_entries: Option<usize>) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::MapBegin(num_entries)]);

    fn dispatch_map_key_begin(&mut self) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::MapKeyBegin]);

    fn dispatch_map_key_end(&mut self) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::MapKeyEnd]);

    fn dispatch_map_value_begin(&mut self) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::MapValueBegin]);

    fn dispatch_map_value_end(&mut self) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::MapValueEnd]);

    fn dispatch_map_end(&mut self) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::MapEnd]);

    fn dispatch_seq_begin(&mut self, num_entries: Option<usize>) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::SeqBegin(num_entries)]);

    fn dispatch_seq_value_begin(&mut self) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::SeqValueBegin]);

    fn dispatch_seq_value_end(&mut self) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::SeqValueEnd]);

    fn dispatch_seq_end(&mut self) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::SeqEnd]);

    fn dispatch_enum_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::EnumBegin(ot(tag), ol(label), oi(index))]);

    fn dispatch_enum_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::EnumEnd(ot(tag), ol(label), oi(index))]);

    fn dispatch_tagged_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::TaggedBegin(ot(tag), ol(label), oi(index))]);

    fn dispatch_tagged_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::TaggedEnd(ot(tag), ol(label), oi(index))]);

    fn dispatch_tag(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::Tag(ot(tag), ol(label), oi(index))]);

    fn dispatch_tag_hint(&mut self, tag: &Tag) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::TagHint(*tag)]);

    fn dispatch_record_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>, num_entries: Option<usize>) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries)]);

    fn dispatch_record_value_begin(&mut self, tag: Option<&Tag>, label: &Label) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::RecordValueBegin(ot(tag), label@)]);

    fn dispatch_record_value_end(&mut self, tag: Option<&Tag>, label: &Label) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::RecordValueEnd(ot(tag), label@)]);

    fn dispatch_record_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::RecordEnd(ot(tag), ol(label), oi(index))]);

    fn dispatch_tuple_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>, num_entries: Option<usize>) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries)]);

    fn dispatch_tuple_value_begin(&mut self, tag: Option<&Tag>, index: &Index) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::TupleValueBegin(ot(tag), index@)]);

    fn dispatch_tuple_value_end(&mut self, tag: Option<&Tag>, index: &Index) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::TupleValueEnd(ot(tag), index@)]);

    fn dispatch_tuple_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::TupleEnd(ot(tag), ol(label), oi(index))]);

    fn dispatch_record_tuple_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>, num_entries: Option<usize>) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::RecordTupleBegin(ot(tag), ol(label), oi(index), num_entries)]);

    fn dispatch_record_tuple_value_begin(&mut self, tag: Option<&Tag>, label: &Label, index: &Index) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::RecordTupleValueBegin(ot(tag), label@, index@)]);

    fn dispatch_record_tuple_value_end(&mut self, tag: Option<&Tag>, label: &Label, index: &Index) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::RecordTupleValueEnd(ot(tag), label@, index@)]);

    fn dispatch_record_tuple_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).dst().broken,
        ensures sent((*old(self)).dst(), (*final(self)).dst(), r, seq![Ev::RecordTupleEnd(ot(tag), ol(label), oi(index))]);

}


//@impl sval_dynamic | ~stream::\{impl<'sval, R: sval::Stream<'sval>> private::DispatchStream<'sval> for R\}
//@header impl<'sval, R: Stream<'sval>> DispatchStream<'sval> for R
//@sub \bsval:: =>
//@sub &dyn crate::Value => &(impl Value + ?Sized)
//@ghost
    open spec fn dst(&self) -> St { self.st() }
//@end

// the trait object: dispatch through the vtable of an arbitrary R
pub struct DynStream<R>(pub R);
impl<R> DynStream<R> {
    pub fn erase_stream(&mut self) -> (r: Erased<&mut R>)
        ensures *r.0 == (*old(self)).0, (*final(self)).0 == *final(r.0),
    { Erased(&mut self.0) }
}
//@impl sval_dynamic | ~stream::\{impl<'sval, 'd> sval::Stream<'sval> for dyn Stream<'sval> \+ 'd\}
//@header impl<'sval, R: DispatchStream<'sval>> Stream<'sval> for DynStream<R>
//@trait sval | stream::Stream
//@sub \bsval:: =>
//@sub default_stream::tag\b => default_stream::tag_
//@elsewhere value
//@ghost
    open spec fn st(&self) -> St { self.0.dst() }
//@end
//@fn sval | stream::Stream::value
//@as dyn_value
//@sub (fn \w+)<V: => \1<'sval, R: DispatchStream<'sval>, V:
//@free DynStream<R>
//@spec
    requires !(*old(self)).st().broken,
    ensures sent((*old(self)).st(), (*final(self)).st(), r, lend(v.evs(), (*old(self)).st().lends)),
//@end
// the trait object: dispatch through the vtable of an arbitrary R
pub struct DynStreamSend<R>(pub R);
impl<R> DynStreamSend<R> {
    pub fn erase_stream(&mut self) -> (r: Erased<&mut R>)
        ensures *r.0 == (*old(self)).0, (*final(self)).0 == *final(r.0),
    { Erased(&mut self.0) }
}
//@impl sval_dynamic | ~stream::\{impl<'sval, 'd> sval::Stream<'sval> for dyn Stream<'sval> \+ Send \+ 'd\}
//@header impl<'sval, R: DispatchStream<'sval>> Stream<'sval> for DynStreamSend<R>
//@trait sval | stream::Stream
//@sub \bsval:: =>
//@sub default_stream::tag\b => default_stream::tag_
//@elsewhere value
//@ghost
    open spec fn st(&self) -> St { self.0.dst() }
//@end
//@fn sval | stream::Stream::value
//@as dynstreamsend_value
//@sub (fn \w+)<V: => \1<'sval, R: DispatchStream<'sval>, V:
//@free DynStreamSend<R>
//@spec
    requires !(*old(self)).st().broken,
    ensures sent((*old(self)).st(), (*final(self)).st(), r, lend(v.evs(), (*old(self)).st().lends)),
//@end
// the trait object: dispatch through the vtable of an arbitrary R
pub struct DynStreamSendSync<R>(pub R);
impl<R> DynStreamSendSync<R> {
    pub fn erase_stream(&mut self) -> (r: Erased<&mut R>)
        ensures *r.0 == (*old(self)).0, (*final(self)).0 == *final(r.0),
    { Erased(&mut self.0) }
}
//@impl sval_dynamic | ~stream::\{impl<'sval, 'd> sval::Stream<'sval> for dyn Stream<'sval> \+ Send \+ Sync \+ 'd\}
//@header impl<'sval, R: DispatchStream<'sval>> Stream<'sval> for DynStreamSendSync<R>
//@trait sval | stream::Stream
//@sub \bsval:: =>
//@sub default_stream::tag\b => default_stream::tag_
//@elsewhere value
//@ghost
    open spec fn st(&self) -> St { self.0.dst() }
//@end
//@fn sval | stream::Stream::value
//@as dynstreamsendsync_value
//@sub (fn \w+)<V: => \1<'sval, R: DispatchStream<'sval>, V:
//@free DynStreamSendSync<R>
//@spec
    requires !(*old(self)).st().broken,
    ensures sent((*old(self)).st(), (*final(self)).st(), r, lend(v.evs(), (*old(self)).st().lends)),
//@end

pub trait DispatchValue: Value {
    spec fn dconv(&self) -> Conv;
    fn dispatch_stream<'sval>(&'sval self, stream: &mut (impl Stream<'sval> + ?Sized)) -> (r: Result)
        requires !(*old(stream)).st().broken,
        ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(self.evs(), (*old(stream)).st().lends));
    fn dispatch_tag(&self) -> (r: Option<Tag>) ensures r == self.dconv().tag;
    fn dispatch_to_bool(&self) -> (r: Option<bool>) ensures r == self.dconv().bool;
    fn dispatch_to_f32(&self) -> (r: Option<f32>) ensures r == self.dconv().f32;
    fn dispatch_to_f64(&self) -> (r: Option<f64>) ensures r == self.dconv().f64;
    fn dispatch_to_i8(&self) -> (r: Option<i8>) ensures r == self.dconv().i8;
    fn dispatch_to_i16(&self) -> (r: Option<i16>) ensures r == self.dconv().i16;
    fn dispatch_to_i32(&self) -> (r: Option<i32>) ensures r == self.dconv().i32;
    fn dispatch_to_i64(&self) -> (r: Option<i64>) ensures r == self.dconv().i64;
    fn dispatch_to_i128(&self) -> (r: Option<i128>) ensures r == self.dconv().i128;
    fn dispatch_to_u8(&self) -> (r: Option<u8>) ensures r == self.dconv().u8;
    fn dispatch_to_u16(&self) -> (r: Option<u16>) ensures r == self.dconv().u16;
    fn dispatch_to_u32(&self) -> (r: Option<u32>) ensures r == self.dconv().u32;
    fn dispatch_to_u64(&self) -> (r: Option<u64>) ensures r == self.dconv().u64;
    fn dispatch_to_u128(&self) -> (r: Option<u128>) ensures r == self.dconv().u128;
    fn dispatch_to_text(&self) -> (r: Option<&str>) ensures os(r) == self.dconv().text;
    fn dispatch_to_binary(&self) -> (r: Option<&[u8]>) ensures ob(r) == self.dconv().binary;
}

//@impl sval_dynamic | ~value::\{impl<T: sval::Value> private::DispatchValue for T\}
//@header impl<T: FullValue> DispatchValue for T
//@sub \bsval:: =>
//@sub &mut dyn Stream<'sval> => &mut (impl Stream<'sval> + ?Sized)
//@ghost
    open spec fn dconv(&self) -> Conv { self.conv() }
//@end

pub struct DynValue<R>(pub R);
impl<R> DynValue<R> {
    pub fn erase_value(&self) -> (r: Erased<&R>)
        ensures *r.0 == self.0,
    { Erased(&self.0) }
}
impl<R: Value> Value for DynValue<R> {
    open spec fn evs(&self) -> Seq<Ev> { self.0.evs() }
}
//@impl sval_dynamic | ~value::\{impl<'d> sval::Value for dyn Value \+ 'd\}
//@header impl<R: DispatchValue> ValueStream for DynValue<R>
//@only stream
//@sub \bsval:: =>
//@sub \(&mut stream\) => (&mut *stream)
//@end
//@impl sval_dynamic | ~value::\{impl<'d> sval::Value for dyn Value \+ 'd\}
//@header impl<R: DispatchValue> FullValue for DynValue<R>
//@skip stream
//@sub \bsval:: =>
//@ghost
    open spec fn conv(&self) -> Conv { self.0.dconv() }
//@end

pub struct DynValueSend<R>(pub R);
impl<R> DynValueSend<R> {
    pub fn erase_value(&self) -> (r: Erased<&R>)
        ensures *r.0 == self.0,
    { Erased(&self.0) }
}
impl<R: Value> Value for DynValueSend<R> {
    open spec fn evs(&self) -> Seq<Ev> { self.0.evs() }
}
//@impl sval_dynamic | ~value::\{impl<'d> sval::Value for dyn Value \+ Send \+ 'd\}
//@header impl<R: DispatchValue> ValueStream for DynValueSend<R>
//@only stream
//@sub \bsval:: =>
//@sub \(&mut stream\) => (&mut *stream)
//@end
//@impl sval_dynamic | ~value::\{impl<'d> sval::Value for dyn Value \+ Send \+ 'd\}
//@header impl<R: DispatchValue> FullValue for DynValueSend<R>
//@skip stream
//@sub \bsval:: =>
//@ghost
    open spec fn conv(&self) -> Conv { self.0.dconv() }
//@end

pub struct DynValueSendSync<R>(pub R);
impl<R> DynValueSendSync<R> {
    pub fn erase_value(&self) -> (r: Erased<&R>)
        ensures *r.0 == self.0,
    { Erased(&self.0) }
}
impl<R: Value> Value for DynValueSendSync<R> {
    open spec fn evs(&self) -> Seq<Ev> { self.0.evs() }
}
//@impl sval_dynamic | ~value::\{impl<'d> sval::Value for dyn Value \+ Send \+ Sync \+ 'd\}
//@header impl<R: DispatchValue> ValueStream for DynValueSendSync<R>
//@only stream
//@sub \bsval:: =>
//@sub \(&mut stream\) => (&mut *stream)
//@end
//@impl sval_dynamic | ~value::\{impl<'d> sval::Value for dyn Value \+ Send \+ Sync \+ 'd\}
//@header impl<R: DispatchValue> FullValue for DynValueSendSync<R>
//@skip stream
//@sub \bsval:: =>
//@ghost
    open spec fn conv(&self) -> Conv { self.0.dconv() }
//@end
}
}
fn main() {}
