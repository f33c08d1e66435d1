// C16: serde's serializer over streams.
//
// The serializer structs own their stream by value, and are only ever built over a `&mut S`;
// the extraction spells that reference out (`stream: &'x mut S`) so that the contracts can speak
// about the stream after the serializer was consumed.
use vstd::prelude::*;
verus! {
//@include stream.rs
//@include builtin.rs
//@include display.rs stub

// A serde value: the events it stands for, and serde's interface seen through them.  (A value
// drives its serializer with the calls serde documents for it; what each of those calls sends is
// what this file proves.)
pub trait Serialize {
    spec fn sevs(&self) -> Seq<Ev>;
}
impl<'a, T: Serialize + ?Sized> Serialize for &'a T {
    open spec fn sevs(&self) -> Seq<Ev> { (**self).sevs() }
}
pub struct ToValue<V>(pub V);
impl<V: Serialize> Value for ToValue<V> { open spec fn evs(&self) -> Seq<Ev> { lend(self.0.sevs(), false) } }

impl<'a> Value for &'a str { open spec fn evs(&self) -> Seq<Ev> { text_evs((**self)@) } }
impl<'a> Value for &'a BinarySlice { open spec fn evs(&self) -> Seq<Ev> { binary_evs((**self).0@) } }

pub mod sval { pub use super::*; pub use super::display::*; }
pub mod to_value {
use super::{sval, Seq, Ev, lend, sent, ol, oi, ot, Serialize, ToValue, LabelV, IndexV, Value, St};
use super::sval::Stream as _;
use super::{text_evs, computed_text_evs, binary_evs, unit_evs, none_evs, some_evs, display_evs};
use vstd::prelude::*;
use super::{lend_push, lend_lend, append_empty, append_assoc, lend_concat};
broadcast use {lend_push, lend_lend, append_empty, append_assoc, lend_concat};
pub type Result<T, E> = core::result::Result<T, E>;
pub struct Error;
impl From<sval::Error> for Error {
    fn from(_e: sval::Error) -> Error { Error }
}
impl Error { pub fn custom(_m: &str) -> Error { Error } }

pub struct Stream<'x, S: ?Sized> { pub stream: &'x mut S }
pub struct StreamTuple<'x, S: ?Sized> { pub stream: &'x mut S, pub label: Option<sval::Label<'static>>, pub index: usize }
pub struct StreamTupleVariant<'x, S: ?Sized> {
    pub stream: &'x mut S, pub enum_label: sval::Label<'static>, pub variant_label: sval::Label<'static>, pub variant_index: sval::Index, pub index: usize,
}
pub struct StreamRecord<'x, S: ?Sized> { pub stream: &'x mut S, pub label: Option<sval::Label<'static>> }
pub struct StreamRecordVariant<'x, S: ?Sized> {
    pub stream: &'x mut S, pub enum_label: sval::Label<'static>, pub variant_label: sval::Label<'static>, pub variant_index: sval::Index,
}
pub open spec fn olabel(o: Option<sval::Label<'static>>) -> Option<LabelV> { match o { Some(l) => Some(l@), None => None } }

// `sent`, for a serializer's own error type.
pub open spec fn sent_<T>(old: St, new: St, r: Result<T, Error>, evs: Seq<Ev>) -> bool {
    &&& r.is_err() == new.broken
    &&& new.lends == old.lends
    &&& r.is_ok() ==> new.log =~= old.log + evs
}
// A name, and a variant's index, as plain hints-free labels.
pub open spec fn name_v(s: Seq<char>) -> Option<LabelV> { Some(LabelV { text: s, tag: None }) }
pub open spec fn index_v(i: int) -> Option<IndexV> { Some(IndexV { num: i, tag: None }) }
pub open spec fn place_v(i: int) -> IndexV { IndexV { num: i, tag: None } }

impl<'x, 'sval, S: sval::Stream<'sval> + ?Sized> Stream<'x, S> {
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> Stream<S>}::stream_value
//@sub &mut self => self
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, lend(v.evs(), false)),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_bool
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::Bool(v)]),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_i8
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::I8(v)]),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_i16
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::I16(v)]),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_i32
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::I32(v)]),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_i64
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::I64(v)]),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_i128
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::I128(v)]),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_u8
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::U8(v)]),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_u16
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::U16(v)]),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_u32
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::U32(v)]),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_u64
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::U64(v)]),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_u128
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::U128(v)]),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_f32
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::F32(v)]),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_f64
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::F64(v)]),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_char
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, computed_text_evs(seq![v])),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_str
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, lend(text_evs(v@), false)),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_bytes
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, lend(binary_evs(v@), false)),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::collect_str
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@sub where\s+T: fmt::Display,? =>
//@sub &mut (self_?)\.stream => \1.stream
//@sub T: \?Sized => T
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, lend(display_evs(&value), false)),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_none
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, none_evs()),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_some
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, lend(some_evs(value.sevs()), false)),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_unit
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, unit_evs()),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_unit_struct
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::Tag(None, name_v(name@), None)]),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_unit_variant
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::EnumBegin(None, name_v(name@), None), Ev::Tag(None, name_v(variant@), index_v(variant_index as int)), Ev::EnumEnd(None, name_v(name@), None)]),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_newtype_struct
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::TaggedBegin(None, name_v(name@), None)] + lend(value.sevs(), false) + seq![Ev::TaggedEnd(None, name_v(name@), None)]),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_newtype_variant
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::EnumBegin(None, name_v(name@), None), Ev::TaggedBegin(None, name_v(variant@), index_v(variant_index as int))] + lend(value.sevs(), false) + seq![Ev::TaggedEnd(None, name_v(variant@), index_v(variant_index as int)), Ev::EnumEnd(None, name_v(name@), None)]),
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_seq
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures
        r matches Ok(w) ==> !(*w.stream).st().broken && (*w.stream).st().lends == (*old(self.stream)).st().lends
            && (*w.stream).st().log =~= (*old(self.stream)).st().log + seq![Ev::SeqBegin(len)] && (*final(w.stream)).st() == (*final(self.stream)).st(),
        r.is_err() ==> (*final(self.stream)).st().broken && (*final(self.stream)).st().lends == (*old(self.stream)).st().lends,
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_map
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures
        r matches Ok(w) ==> !(*w.stream).st().broken && (*w.stream).st().lends == (*old(self.stream)).st().lends
            && (*w.stream).st().log =~= (*old(self.stream)).st().log + seq![Ev::MapBegin(len)] && (*final(w.stream)).st() == (*final(self.stream)).st(),
        r.is_err() ==> (*final(self.stream)).st().broken && (*final(self.stream)).st().lends == (*old(self.stream)).st().lends,
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_tuple
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures
        r matches Ok(w) ==> !(*w.stream).st().broken && (*w.stream).st().lends == (*old(self.stream)).st().lends
            && (*w.stream).st().log =~= (*old(self.stream)).st().log + seq![Ev::TupleBegin(None, None, None, Some(len))] && (*final(w.stream)).st() == (*final(self.stream)).st() && olabel(w.label) == None::<LabelV> && w.index == 0,
        r.is_err() ==> (*final(self.stream)).st().broken && (*final(self.stream)).st().lends == (*old(self.stream)).st().lends,
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_tuple_struct
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures
        r matches Ok(w) ==> !(*w.stream).st().broken && (*w.stream).st().lends == (*old(self.stream)).st().lends
            && (*w.stream).st().log =~= (*old(self.stream)).st().log + seq![Ev::TupleBegin(None, name_v(name@), None, Some(len))] && (*final(w.stream)).st() == (*final(self.stream)).st() && olabel(w.label) == name_v(name@) && w.index == 0,
        r.is_err() ==> (*final(self.stream)).st().broken && (*final(self.stream)).st().lends == (*old(self.stream)).st().lends,
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_struct
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures
        r matches Ok(w) ==> !(*w.stream).st().broken && (*w.stream).st().lends == (*old(self.stream)).st().lends
            && (*w.stream).st().log =~= (*old(self.stream)).st().log + seq![Ev::RecordBegin(None, name_v(name@), None, Some(len))] && (*final(w.stream)).st() == (*final(self.stream)).st() && olabel(w.label) == name_v(name@),
        r.is_err() ==> (*final(self.stream)).st().broken && (*final(self.stream)).st().lends == (*old(self.stream)).st().lends,
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_tuple_variant
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures
        r matches Ok(w) ==> !(*w.stream).st().broken && (*w.stream).st().lends == (*old(self.stream)).st().lends
            && (*w.stream).st().log =~= (*old(self.stream)).st().log + seq![Ev::EnumBegin(None, name_v(name@), None), Ev::TupleBegin(None, name_v(variant@), index_v(variant_index as int), Some(len))] && (*final(w.stream)).st() == (*final(self.stream)).st() && Some(w.enum_label@) == name_v(name@) && Some(w.variant_label@) == name_v(variant@) && Some(w.variant_index@) == index_v(variant_index as int) && w.index == 0,
        r.is_err() ==> (*final(self.stream)).st().broken && (*final(self.stream)).st().lends == (*old(self.stream)).st().lends,
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::Serializer for Stream<S>}::serialize_struct_variant
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures
        r matches Ok(w) ==> !(*w.stream).st().broken && (*w.stream).st().lends == (*old(self.stream)).st().lends
            && (*w.stream).st().log =~= (*old(self.stream)).st().log + seq![Ev::EnumBegin(None, name_v(name@), None), Ev::RecordBegin(None, name_v(variant@), index_v(variant_index as int), Some(len))] && (*final(w.stream)).st() == (*final(self.stream)).st() && Some(w.enum_label@) == name_v(name@) && Some(w.variant_label@) == name_v(variant@) && Some(w.variant_index@) == index_v(variant_index as int),
        r.is_err() ==> (*final(self.stream)).st().broken && (*final(self.stream)).st().lends == (*old(self.stream)).st().lends,
//@end
}
pub mod serializeseq {
use super::*;
use super::super::sval::Stream as _;
broadcast use {lend_push, lend_lend, append_empty, append_assoc, lend_concat};
pub type Result<T, E> = core::result::Result<T, E>;
impl<'x, 'sval, S: sval::Stream<'sval> + ?Sized> Stream<'x, S> {
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::ser::SerializeSeq for Stream<S>}::serialize_element
//@as serializeseq_serialize_element
//@vis pub
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*(*old(self)).stream).st().broken,
    ensures
        sent_((*(*old(self)).stream).st(), (*(*final(self)).stream).st(), r, seq![Ev::SeqValueBegin] + lend(value.sevs(), false) + seq![Ev::SeqValueEnd]),
        (*final((*final(self)).stream)).st() == (*final((*old(self)).stream)).st(),
        
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::ser::SerializeSeq for Stream<S>}::end
//@as serializeseq_end
//@vis pub
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::SeqEnd]),
//@end
}
}
pub mod serializemap {
use super::*;
use super::super::sval::Stream as _;
broadcast use {lend_push, lend_lend, append_empty, append_assoc, lend_concat};
pub type Result<T, E> = core::result::Result<T, E>;
impl<'x, 'sval, S: sval::Stream<'sval> + ?Sized> Stream<'x, S> {
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::ser::SerializeMap for Stream<S>}::serialize_key
//@as serializemap_serialize_key
//@vis pub
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*(*old(self)).stream).st().broken,
    ensures
        sent_((*(*old(self)).stream).st(), (*(*final(self)).stream).st(), r, seq![Ev::MapKeyBegin] + lend(key.sevs(), false) + seq![Ev::MapKeyEnd]),
        (*final((*final(self)).stream)).st() == (*final((*old(self)).stream)).st(),
        
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::ser::SerializeMap for Stream<S>}::serialize_value
//@as serializemap_serialize_value
//@vis pub
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*(*old(self)).stream).st().broken,
    ensures
        sent_((*(*old(self)).stream).st(), (*(*final(self)).stream).st(), r, seq![Ev::MapValueBegin] + lend(value.sevs(), false) + seq![Ev::MapValueEnd]),
        (*final((*final(self)).stream)).st() == (*final((*old(self)).stream)).st(),
        
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::ser::SerializeMap for Stream<S>}::end
//@as serializemap_end
//@vis pub
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::MapEnd]),
//@end
}
}
pub mod serializetuple {
use super::*;
use super::super::sval::Stream as _;
broadcast use {lend_push, lend_lend, append_empty, append_assoc, lend_concat};
pub type Result<T, E> = core::result::Result<T, E>;
impl<'x, 'sval, S: sval::Stream<'sval> + ?Sized> StreamTuple<'x, S> {
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::ser::SerializeTuple for StreamTuple<S>}::serialize_element
//@as serializetuple_serialize_element
//@vis pub
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*(*old(self)).stream).st().broken, (*old(self)).index < usize::MAX,
    ensures
        sent_((*(*old(self)).stream).st(), (*(*final(self)).stream).st(), r, seq![Ev::TupleValueBegin(None, place_v((*old(self)).index as int))] + lend(value.sevs(), false) + seq![Ev::TupleValueEnd(None, place_v((*old(self)).index as int))]),
        (*final((*final(self)).stream)).st() == (*final((*old(self)).stream)).st(), (*final(self)).label == (*old(self)).label,
        r.is_ok() ==> (*final(self)).index == (*old(self)).index + 1,
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::ser::SerializeTuple for StreamTuple<S>}::end
//@as serializetuple_end
//@vis pub
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::TupleEnd(None, olabel(self.label), None)]),
//@end
}
}
pub mod serializetuplestruct {
use super::*;
use super::super::sval::Stream as _;
broadcast use {lend_push, lend_lend, append_empty, append_assoc, lend_concat};
pub type Result<T, E> = core::result::Result<T, E>;
impl<'x, 'sval, S: sval::Stream<'sval> + ?Sized> StreamTuple<'x, S> {
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::ser::SerializeTupleStruct for StreamTuple<S>}::serialize_field
//@as serializetuplestruct_serialize_field
//@vis pub
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*(*old(self)).stream).st().broken, (*old(self)).index < usize::MAX,
    ensures
        sent_((*(*old(self)).stream).st(), (*(*final(self)).stream).st(), r, seq![Ev::TupleValueBegin(None, place_v((*old(self)).index as int))] + lend(value.sevs(), false) + seq![Ev::TupleValueEnd(None, place_v((*old(self)).index as int))]),
        (*final((*final(self)).stream)).st() == (*final((*old(self)).stream)).st(), (*final(self)).label == (*old(self)).label,
        r.is_ok() ==> (*final(self)).index == (*old(self)).index + 1,
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::ser::SerializeTupleStruct for StreamTuple<S>}::end
//@as serializetuplestruct_end
//@vis pub
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::TupleEnd(None, olabel(self.label), None)]),
//@end
}
}
pub mod serializetuplevariant {
use super::*;
use super::super::sval::Stream as _;
broadcast use {lend_push, lend_lend, append_empty, append_assoc, lend_concat};
pub type Result<T, E> = core::result::Result<T, E>;
impl<'x, 'sval, S: sval::Stream<'sval> + ?Sized> StreamTupleVariant<'x, S> {
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::ser::SerializeTupleVariant for StreamTupleVariant<S>}::serialize_field
//@as serializetuplevariant_serialize_field
//@vis pub
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*(*old(self)).stream).st().broken, (*old(self)).index < usize::MAX,
    ensures
        sent_((*(*old(self)).stream).st(), (*(*final(self)).stream).st(), r, seq![Ev::TupleValueBegin(None, place_v((*old(self)).index as int))] + lend(value.sevs(), false) + seq![Ev::TupleValueEnd(None, place_v((*old(self)).index as int))]),
        (*final((*final(self)).stream)).st() == (*final((*old(self)).stream)).st(), (*final(self)).enum_label == (*old(self)).enum_label, (*final(self)).variant_label == (*old(self)).variant_label, (*final(self)).variant_index == (*old(self)).variant_index,
        r.is_ok() ==> (*final(self)).index == (*old(self)).index + 1,
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::ser::SerializeTupleVariant for StreamTupleVariant<S>}::end
//@as serializetuplevariant_end
//@vis pub
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::TupleEnd(None, Some(self.variant_label@), Some(self.variant_index@)), Ev::EnumEnd(None, Some(self.enum_label@), None)]),
//@end
}
}
pub mod serializestruct {
use super::*;
use super::super::sval::Stream as _;
broadcast use {lend_push, lend_lend, append_empty, append_assoc, lend_concat};
pub type Result<T, E> = core::result::Result<T, E>;
impl<'x, 'sval, S: sval::Stream<'sval> + ?Sized> StreamRecord<'x, S> {
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::ser::SerializeStruct for StreamRecord<S>}::serialize_field
//@as serializestruct_serialize_field
//@vis pub
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*(*old(self)).stream).st().broken,
    ensures
        sent_((*(*old(self)).stream).st(), (*(*final(self)).stream).st(), r, seq![Ev::RecordValueBegin(None, LabelV { text: key@, tag: None })] + lend(value.sevs(), false) + seq![Ev::RecordValueEnd(None, LabelV { text: key@, tag: None })]),
        (*final((*final(self)).stream)).st() == (*final((*old(self)).stream)).st(), (*final(self)).label == (*old(self)).label,
        
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::ser::SerializeStruct for StreamRecord<S>}::end
//@as serializestruct_end
//@vis pub
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::RecordEnd(None, olabel(self.label), None)]),
//@end
}
}
pub mod serializestructvariant {
use super::*;
use super::super::sval::Stream as _;
broadcast use {lend_push, lend_lend, append_empty, append_assoc, lend_concat};
pub type Result<T, E> = core::result::Result<T, E>;
impl<'x, 'sval, S: sval::Stream<'sval> + ?Sized> StreamRecordVariant<'x, S> {
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::ser::SerializeStructVariant for StreamRecordVariant<S>}::serialize_field
//@as serializestructvariant_serialize_field
//@vis pub
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*(*old(self)).stream).st().broken,
    ensures
        sent_((*(*old(self)).stream).st(), (*(*final(self)).stream).st(), r, seq![Ev::RecordValueBegin(None, LabelV { text: key@, tag: None })] + lend(value.sevs(), false) + seq![Ev::RecordValueEnd(None, LabelV { text: key@, tag: None })]),
        (*final((*final(self)).stream)).st() == (*final((*old(self)).stream)).st(), (*final(self)).enum_label == (*old(self)).enum_label, (*final(self)).variant_label == (*old(self)).variant_label, (*final(self)).variant_index == (*old(self)).variant_index,
        
//@end
//@fn sval_serde | to_value::{impl<'sval, S: sval::Stream<'sval>> serde::ser::SerializeStructVariant for StreamRecordVariant<S>}::end
//@as serializestructvariant_end
//@vis pub
//@sub (?<=\()\|_\| => |_e: sval::Error|
//@sub Self::Ok\b => ()
//@sub Self::Error\b => Error
//@sub serde::Serialize => Serialize
//@sub Self::SerializeSeq|Self::SerializeMap => Stream<'x, S>
//@sub Self::SerializeTuple\b|Self::SerializeTupleStruct\b => StreamTuple<'x, S>
//@sub Self::SerializeTupleVariant\b => StreamTupleVariant<'x, S>
//@sub Self::SerializeStruct\b => StreamRecord<'x, S>
//@sub Self::SerializeStructVariant\b => StreamRecordVariant<'x, S>
//@spec
    requires !(*old(self.stream)).st().broken,
    ensures sent_((*old(self.stream)).st(), (*final(self.stream)).st(), r, seq![Ev::RecordEnd(None, Some(self.variant_label@), Some(self.variant_index@)), Ev::EnumEnd(None, Some(self.enum_label@), None)]),
//@end
}
}

// A serde value, as the serializer sees it.
pub trait SerializeInto: Serialize {
    fn serialize<'x, 'sval, S: sval::Stream<'sval> + ?Sized>(&self, s: Stream<'x, S>) -> (r: Result<(), Error>)
        requires !(*old(s.stream)).st().broken,
        ensures sent_((*old(s.stream)).st(), (*final(s.stream)).st(), r, lend(self.sevs(), false));
}
impl From<Error> for sval::Error {
    fn from(_e: Error) -> sval::Error { sval::Error::new() }
}
pub mod entry {
use super::*;
use super::super::{Result, ValueStream};
broadcast use {lend_push, lend_lend, append_empty, append_assoc, lend_concat};
impl<V: SerializeInto> ToValue<V> {
//@fn sval_serde | to_value::{impl<V: serde::Serialize> ToValue<V>}::new
//@as new
//@spec
    ensures r.0 == value,
//@end
}
//@impl sval_serde | to_value::{impl<V: serde::Serialize> sval::Value for ToValue<V>}
//@header impl<V: SerializeInto> ValueStream for ToValue<V>
//@only stream
//@end
//@fn sval_serde | to_value::stream
//@as stream_
//@sub value: impl serde::Serialize => value: V
//@sub (fn \w+)<'sval> => \1<'sval, V: SerializeInto>
//@spec
    requires !(*old(stream)).st().broken,
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(value.sevs(), false)),
//@end
}

// A client of the contracts above: a tuple variant of any length, driven as serde documents it.
pub open spec fn fields<T: Serialize>(xs: Seq<T>) -> Seq<Ev>
    decreases xs.len(),
{
    if xs.len() == 0 { Seq::empty() } else {
        fields(xs.drop_last()) + (seq![Ev::TupleValueBegin(None, place_v(xs.len() - 1))] + lend(xs.last().sevs(), false) + seq![Ev::TupleValueEnd(None, place_v(xs.len() - 1))])
    }
}
pub fn tuple_variant<'x, 'sval, S: sval::Stream<'sval> + ?Sized, T: Serialize>(s: Stream<'x, S>, name: &'static str, index: u32, variant: &'static str, xs: &[T]) -> (r: Result<(), Error>)
    requires !(*old(s.stream)).st().broken,
    ensures sent_((*old(s.stream)).st(), (*final(s.stream)).st(), r,
        seq![Ev::EnumBegin(None, name_v(name@), None), Ev::TupleBegin(None, name_v(variant@), index_v(index as int), Some(xs@.len() as usize))]
        + fields(xs@) + seq![Ev::TupleEnd(None, name_v(variant@), index_v(index as int)), Ev::EnumEnd(None, name_v(name@), None)]),
{
    let ghost o = (*old(s.stream)).st();
    let ghost f = (*final(s.stream)).st();
    let ghost pre = seq![Ev::EnumBegin(None, name_v(name@), None), Ev::TupleBegin(None, name_v(variant@), index_v(index as int), Some(xs@.len() as usize))];
    let mut w = s.serialize_tuple_variant(name, index, variant, xs.len())?;
    let mut i = 0;
    assert(xs@.take(0) =~= Seq::empty());
    while i < xs.len()
        invariant
            f == (*final(s.stream)).st(), o == (*old(s.stream)).st(),
            i <= xs@.len(), w.index == i, !(*w.stream).st().broken, (*w.stream).st().lends == o.lends, (*final(w.stream)).st() == f,
            Some(w.enum_label@) == name_v(name@), Some(w.variant_label@) == name_v(variant@), Some(w.variant_index@) == index_v(index as int),
            (*w.stream).st().log =~= o.log + (pre + fields(xs@.take(i as int))),
        decreases xs@.len() - i,
    {
        w.serializetuplevariant_serialize_field(&xs[i])?;
        proof {
            assert(xs@.take(i + 1).drop_last() =~= xs@.take(i as int));
        }
        i += 1;
    }
    assert(xs@.take(i as int) =~= xs@);
    w.serializetuplevariant_end()
}
}
}
fn main() {}
