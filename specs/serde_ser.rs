// C17: streams over serde's serializer.
//
// serde's interface is seen through what its methods are given: a serializer's result carries the
// calls that made it (`made`), and a compound serializer the calls so far.  A `reliable` serializer
// is one that only fails when a value given to it does.  Its implementor may do anything else.
use vstd::prelude::*;
verus! {
//@include stream.rs
pub uninterp spec fn made<T>(o: T) -> Seq<Call>;
pub ghost enum Call {
    Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), F32(f32), F64(f64),
    Str(Seq<char>), Bytes(Seq<u8>), None, Some(Seq<Ev>), Unit,
    UnitStruct(Seq<char>), UnitVariant(Seq<char>, u32, Seq<char>),
    NewtypeStruct(Seq<char>, Seq<Ev>), NewtypeVariant(Seq<char>, u32, Seq<char>, Seq<Ev>),
    Seq(Option<usize>), Map(Option<usize>), Tuple(usize), TupleStruct(Seq<char>, usize),
    TupleVariant(Seq<char>, u32, Seq<char>, usize), Struct(Seq<char>, usize), StructVariant(Seq<char>, u32, Seq<char>, usize),
    Element(Seq<Ev>), Key(Seq<Ev>), Value(Seq<Ev>), Field(Seq<char>, Seq<Ev>), End,
}
pub mod serde {
use super::*;
// A value to serialize: the events it stands for, and whether it can be serialized at all.
pub trait Serialize { spec fn sevs(&self) -> Seq<Ev>; spec fn can(&self) -> bool; }
pub trait Serializer: Sized {
    type Ok;
    type Error: ser::Error;
    type SerializeSeq: ser::SerializeSeq<Ok = Self::Ok, Error = Self::Error>;
    type SerializeMap: ser::SerializeMap<Ok = Self::Ok, Error = Self::Error>;
    type SerializeTuple: ser::SerializeTuple<Ok = Self::Ok, Error = Self::Error>;
    type SerializeTupleStruct: ser::SerializeTupleStruct<Ok = Self::Ok, Error = Self::Error>;
    type SerializeTupleVariant: ser::SerializeTupleVariant<Ok = Self::Ok, Error = Self::Error>;
    type SerializeStruct: ser::SerializeStruct<Ok = Self::Ok, Error = Self::Error>;
    type SerializeStructVariant: ser::SerializeStructVariant<Ok = Self::Ok, Error = Self::Error>;
    spec fn reliable(&self) -> bool;
    fn serialize_bool(self, v: bool) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::Bool(v)], self.reliable() && true ==> r.is_ok();
    fn serialize_i8(self, v: i8) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::I8(v)], self.reliable() && true ==> r.is_ok();
    fn serialize_i16(self, v: i16) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::I16(v)], self.reliable() && true ==> r.is_ok();
    fn serialize_i32(self, v: i32) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::I32(v)], self.reliable() && true ==> r.is_ok();
    fn serialize_i64(self, v: i64) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::I64(v)], self.reliable() && true ==> r.is_ok();
    fn serialize_i128(self, v: i128) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::I128(v)], self.reliable() && true ==> r.is_ok();
    fn serialize_u8(self, v: u8) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::U8(v)], self.reliable() && true ==> r.is_ok();
    fn serialize_u16(self, v: u16) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::U16(v)], self.reliable() && true ==> r.is_ok();
    fn serialize_u32(self, v: u32) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::U32(v)], self.reliable() && true ==> r.is_ok();
    fn serialize_u64(self, v: u64) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::U64(v)], self.reliable() && true ==> r.is_ok();
    fn serialize_u128(self, v: u128) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::U128(v)], self.reliable() && true ==> r.is_ok();
    fn serialize_f32(self, v: f32) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::F32(v)], self.reliable() && true ==> r.is_ok();
    fn serialize_f64(self, v: f64) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::F64(v)], self.reliable() && true ==> r.is_ok();
    fn serialize_str(self, v: &str) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::Str(v@)], self.reliable() && true ==> r.is_ok();
    fn serialize_bytes(self, v: &[u8]) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::Bytes(v@)], self.reliable() && true ==> r.is_ok();
    fn serialize_none(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::None], self.reliable() && true ==> r.is_ok();
    fn serialize_some<T: Serialize + ?Sized>(self, value: &T) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::Some(value.sevs())], self.reliable() && value.can() ==> r.is_ok();
    fn serialize_unit(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::Unit], self.reliable() && true ==> r.is_ok();
    fn serialize_unit_struct(self, name: &'static str) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::UnitStruct(name@)], self.reliable() && true ==> r.is_ok();
    fn serialize_unit_variant(self, name: &'static str, variant_index: u32, variant: &'static str) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::UnitVariant(name@, variant_index, variant@)], self.reliable() && true ==> r.is_ok();
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, name: &'static str, value: &T) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::NewtypeStruct(name@, value.sevs())], self.reliable() && value.can() ==> r.is_ok();
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, name: &'static str, variant_index: u32, variant: &'static str, value: &T) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == seq![Call::NewtypeVariant(name@, variant_index, variant@, value.sevs())], self.reliable() && value.can() ==> r.is_ok();
    fn serialize_seq(self, len: Option<usize>) -> (r: Result<Self::SerializeSeq, Self::Error>)
        ensures r matches Ok(o) ==> ser::SerializeSeq::calls(&o) == seq![Call::Seq(len)] && (self.reliable() ==> ser::SerializeSeq::steady(&o)), self.reliable() ==> r.is_ok();
    fn serialize_map(self, len: Option<usize>) -> (r: Result<Self::SerializeMap, Self::Error>)
        ensures r matches Ok(o) ==> ser::SerializeMap::calls(&o) == seq![Call::Map(len)] && (self.reliable() ==> ser::SerializeMap::steady(&o)), self.reliable() ==> r.is_ok();
    fn serialize_tuple(self, len: usize) -> (r: Result<Self::SerializeTuple, Self::Error>)
        ensures r matches Ok(o) ==> ser::SerializeTuple::calls(&o) == seq![Call::Tuple(len)] && (self.reliable() ==> ser::SerializeTuple::steady(&o)), self.reliable() ==> r.is_ok();
    fn serialize_tuple_struct(self, name: &'static str, len: usize) -> (r: Result<Self::SerializeTupleStruct, Self::Error>)
        ensures r matches Ok(o) ==> ser::SerializeTupleStruct::calls(&o) == seq![Call::TupleStruct(name@, len)] && (self.reliable() ==> ser::SerializeTupleStruct::steady(&o)), self.reliable() ==> r.is_ok();
    fn serialize_tuple_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize) -> (r: Result<Self::SerializeTupleVariant, Self::Error>)
        ensures r matches Ok(o) ==> ser::SerializeTupleVariant::calls(&o) == seq![Call::TupleVariant(name@, variant_index, variant@, len)] && (self.reliable() ==> ser::SerializeTupleVariant::steady(&o)), self.reliable() ==> r.is_ok();
    fn serialize_struct(self, name: &'static str, len: usize) -> (r: Result<Self::SerializeStruct, Self::Error>)
        ensures r matches Ok(o) ==> ser::SerializeStruct::calls(&o) == seq![Call::Struct(name@, len)] && (self.reliable() ==> ser::SerializeStruct::steady(&o)), self.reliable() ==> r.is_ok();
    fn serialize_struct_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize) -> (r: Result<Self::SerializeStructVariant, Self::Error>)
        ensures r matches Ok(o) ==> ser::SerializeStructVariant::calls(&o) == seq![Call::StructVariant(name@, variant_index, variant@, len)] && (self.reliable() ==> ser::SerializeStructVariant::steady(&o)), self.reliable() ==> r.is_ok();
}
pub mod ser {
use super::*;
pub trait Error: Sized { fn custom(msg: super::super::sval_nested::Error) -> Self; }
pub trait SerializeSeq: Sized {
    type Ok;
    type Error;
    spec fn calls(&self) -> Seq<Call>;
    spec fn steady(&self) -> bool;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, value: &T) -> (r: Result<(), Self::Error>)
        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push(Call::Element(value.sevs())),
            (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && value.can() ==> r.is_ok();
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == self.calls().push(Call::End), self.steady() ==> r.is_ok();
}
pub trait SerializeMap: Sized {
    type Ok;
    type Error;
    spec fn calls(&self) -> Seq<Call>;
    spec fn steady(&self) -> bool;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, key: &T) -> (r: Result<(), Self::Error>)
        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push(Call::Key(key.sevs())),
            (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && key.can() ==> r.is_ok();
    fn serialize_value<T: Serialize + ?Sized>(&mut self, value: &T) -> (r: Result<(), Self::Error>)
        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push(Call::Value(value.sevs())),
            (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && value.can() ==> r.is_ok();
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == self.calls().push(Call::End), self.steady() ==> r.is_ok();
}
pub trait SerializeTuple: Sized {
    type Ok;
    type Error;
    spec fn calls(&self) -> Seq<Call>;
    spec fn steady(&self) -> bool;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, value: &T) -> (r: Result<(), Self::Error>)
        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push(Call::Element(value.sevs())),
            (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && value.can() ==> r.is_ok();
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == self.calls().push(Call::End), self.steady() ==> r.is_ok();
}
pub trait SerializeTupleStruct: Sized {
    type Ok;
    type Error;
    spec fn calls(&self) -> Seq<Call>;
    spec fn steady(&self) -> bool;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, value: &T) -> (r: Result<(), Self::Error>)
        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push(Call::Element(value.sevs())),
            (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && value.can() ==> r.is_ok();
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == self.calls().push(Call::End), self.steady() ==> r.is_ok();
}
pub trait SerializeTupleVariant: Sized {
    type Ok;
    type Error;
    spec fn calls(&self) -> Seq<Call>;
    spec fn steady(&self) -> bool;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, value: &T) -> (r: Result<(), Self::Error>)
        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push(Call::Element(value.sevs())),
            (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && value.can() ==> r.is_ok();
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == self.calls().push(Call::End), self.steady() ==> r.is_ok();
}
pub trait SerializeStruct: Sized {
    type Ok;
    type Error;
    spec fn calls(&self) -> Seq<Call>;
    spec fn steady(&self) -> bool;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, key: &'static str, value: &T) -> (r: Result<(), Self::Error>)
        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push(Call::Field(key@, value.sevs())),
            (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && value.can() ==> r.is_ok();
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == self.calls().push(Call::End), self.steady() ==> r.is_ok();
}
pub trait SerializeStructVariant: Sized {
    type Ok;
    type Error;
    spec fn calls(&self) -> Seq<Call>;
    spec fn steady(&self) -> bool;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, key: &'static str, value: &T) -> (r: Result<(), Self::Error>)
        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push(Call::Field(key@, value.sevs())),
            (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && value.can() ==> r.is_ok();
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r matches Ok(o) ==> made(o) == self.calls().push(Call::End), self.steady() ==> r.is_ok();
}
}
}
pub mod sval_nested {
    use super::*;
    pub struct Error;
    pub type Result<T = (), E = Error> = core::result::Result<T, E>;
    impl Error { #[verifier::external_body] pub fn invalid_value(msg: &'static str) -> Error { Error } }
    #[verifier::reject_recursive_types(Ok)]
    #[verifier::external_body]
    pub struct Unsupported<Ok>(core::marker::PhantomData<Ok>);
}
pub mod sval { pub use super::*; }
pub assume_specification<T, E, F: FnOnce(E) -> T>[ Result::<T, E>::unwrap_or_else ](r: Result<T, E>, f: F) -> (o: T)
    requires r matches Err(e) ==> f.requires((e,)),
    ensures match r { Ok(t) => o == t, Err(e) => f.ensures((e,), o) };
pub mod to_serialize {
use super::{sval, serde, sval_nested, made, is_static, Call, Ev, Seq, Value, LabelV, IndexV};
use serde::{Serialize as _, Serializer as _};
use serde::ser::{Error as _, SerializeSeq as _, SerializeMap as _, SerializeTuple as _, SerializeTupleStruct as _, SerializeTupleVariant as _, SerializeStruct as _, SerializeStructVariant as _};
use vstd::prelude::*;
pub struct ToSerialize<V>(pub V);
// that a value can be serialized: the nested calls for it succeed (C18), and each child can
pub uninterp spec fn can_serialize(evs: Seq<Ev>) -> bool;
impl<V: Value> serde::Serialize for ToSerialize<V> {
    open spec fn sevs(&self) -> Seq<Ev> { self.0.evs() }
    open spec fn can(&self) -> bool { can_serialize(self.0.evs()) }
}
impl<V: Value> ToSerialize<V> {
//@fn sval_serde | to_serialize::{impl<V: sval::Value> ToSerialize<V>}::new
//@vis pub
//@sub const fn => fn
//@spec
    ensures r.0 == value,
//@end
}
//@use sval_serde | to_serialize::Serializer
//@use sval_serde | to_serialize::SerializeSeq
//@use sval_serde | to_serialize::SerializeMap
//@use sval_serde | to_serialize::SerializeTuple
//@use sval_serde | to_serialize::MaybeNamed
//@use sval_serde | to_serialize::SerializeRecord
//@use sval_serde | to_serialize::SerializeEnum
//@use sval_serde | to_serialize::SerializeRecordVariant
//@use sval_serde | to_serialize::SerializeTupleVariant
impl<S: serde::Serializer> Serializer<S> {
//@fn sval_serde | to_serialize::{impl<S> Serializer<S>}::new
//@vis pub
//@spec
    ensures r.serializer == serializer,
//@end
// What streaming a value into a serializer gives (C18).
    pub uninterp spec fn given(self, evs: Seq<Ev>) -> sval_nested::Result<Result<S::Ok, S::Error>>;
    #[verifier::external_body]
    pub fn value_ref<V: Value>(self, value: &V) -> (r: sval_nested::Result<Result<S::Ok, S::Error>>)
        ensures r == self.given(value.evs()),
    { unimplemented!() }
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::null
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(Ok(o)) ==> made(o) == seq![Call::None],
        self.serializer.reliable() && true ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::bool
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(Ok(o)) ==> made(o) == seq![Call::Bool(value)],
        self.serializer.reliable() && true ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::i8
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(Ok(o)) ==> made(o) == seq![Call::I8(value)],
        self.serializer.reliable() && true ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::i16
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(Ok(o)) ==> made(o) == seq![Call::I16(value)],
        self.serializer.reliable() && true ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::i32
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(Ok(o)) ==> made(o) == seq![Call::I32(value)],
        self.serializer.reliable() && true ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::i64
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(Ok(o)) ==> made(o) == seq![Call::I64(value)],
        self.serializer.reliable() && true ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::i128
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(Ok(o)) ==> made(o) == seq![Call::I128(value)],
        self.serializer.reliable() && true ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::u8
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(Ok(o)) ==> made(o) == seq![Call::U8(value)],
        self.serializer.reliable() && true ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::u16
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(Ok(o)) ==> made(o) == seq![Call::U16(value)],
        self.serializer.reliable() && true ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::u32
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(Ok(o)) ==> made(o) == seq![Call::U32(value)],
        self.serializer.reliable() && true ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::u64
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(Ok(o)) ==> made(o) == seq![Call::U64(value)],
        self.serializer.reliable() && true ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::u128
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(Ok(o)) ==> made(o) == seq![Call::U128(value)],
        self.serializer.reliable() && true ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::f32
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(Ok(o)) ==> made(o) == seq![Call::F32(value)],
        self.serializer.reliable() && true ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::f64
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(Ok(o)) ==> made(o) == seq![Call::F64(value)],
        self.serializer.reliable() && true ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::text_computed
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(Ok(o)) ==> made(o) == seq![Call::Str(text@)],
        self.serializer.reliable() && true ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::binary_computed
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(Ok(o)) ==> made(o) == seq![Call::Bytes(binary@)],
        self.serializer.reliable() && true ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::tag
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures
        tag == Some(sval::tags::RUST_OPTION_NONE) ==> (r matches Ok(Ok(o)) ==> made(o) == seq![Call::None]) && (self.serializer.reliable() ==> (r matches Ok(Ok(_)))),
        tag == Some(sval::tags::RUST_UNIT) ==> (r matches Ok(Ok(o)) ==> made(o) == seq![Call::Unit]) && (self.serializer.reliable() ==> (r matches Ok(Ok(_)))),
        tag != Some(sval::tags::RUST_OPTION_NONE) && tag != Some(sval::tags::RUST_UNIT) ==> (r matches Ok(Ok(o)) ==> (label matches Some(l) && is_static(l)) && made(o) == seq![Call::UnitStruct(label->Some_0@.text)]),
        self.serializer.reliable() && (label matches Some(l) && is_static(l)) ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::tagged_computed
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures
        tag == Some(sval::tags::RUST_OPTION_SOME) ==> (r matches Ok(Ok(o)) ==> made(o) == seq![Call::Some(value.evs())]) && (self.serializer.reliable() && can_serialize(value.evs()) ==> (r matches Ok(Ok(_)))),
        tag != Some(sval::tags::RUST_OPTION_SOME) ==> (r matches Ok(Ok(o)) ==> (label matches Some(l) && is_static(l)) && made(o) == seq![Call::NewtypeStruct(label->Some_0@.text, value.evs())]),
        self.serializer.reliable() && (label matches Some(l) && is_static(l)) && can_serialize(value.evs()) ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::seq_begin
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Self::Seq\b => SerializeSeq<S::SerializeSeq, S::Error>
//@sub Self::Map\b => SerializeMap<S::SerializeMap, S::Error>
//@sub Self::Tuple\b => SerializeTuple<S::SerializeTupleStruct, S::SerializeTuple, S::Error>
//@sub Self::Record\b => SerializeRecord<S::SerializeStruct, S::SerializeTuple, S::Error>
//@sub Self::Enum\b => SerializeEnum<S>
//@sub \.map\(\|serializer\|\s*MaybeNamed::(\w+)\s*\{\s*serializer,?\s*\}\) => .map(|serializer| -> (q: MaybeNamed<$N, S::SerializeTuple>) ensures q == (MaybeNamed::\1 { serializer }) { MaybeNamed::\1 { serializer } })
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(w), r->Ok_0.serializer matches Ok(s) ==> s.calls() == seq![Call::Seq(num_entries)] && (self.serializer.reliable() ==> s.steady()),
        self.serializer.reliable() ==> r->Ok_0.serializer.is_ok(),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::map_begin
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Self::Seq\b => SerializeSeq<S::SerializeSeq, S::Error>
//@sub Self::Map\b => SerializeMap<S::SerializeMap, S::Error>
//@sub Self::Tuple\b => SerializeTuple<S::SerializeTupleStruct, S::SerializeTuple, S::Error>
//@sub Self::Record\b => SerializeRecord<S::SerializeStruct, S::SerializeTuple, S::Error>
//@sub Self::Enum\b => SerializeEnum<S>
//@sub \.map\(\|serializer\|\s*MaybeNamed::(\w+)\s*\{\s*serializer,?\s*\}\) => .map(|serializer| -> (q: MaybeNamed<$N, S::SerializeTuple>) ensures q == (MaybeNamed::\1 { serializer }) { MaybeNamed::\1 { serializer } })
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(w), r->Ok_0.serializer matches Ok(s) ==> s.calls() == seq![Call::Map(num_entries)] && (self.serializer.reliable() ==> s.steady()),
        self.serializer.reliable() ==> r->Ok_0.serializer.is_ok(),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::tuple_begin
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Self::Seq\b => SerializeSeq<S::SerializeSeq, S::Error>
//@sub Self::Map\b => SerializeMap<S::SerializeMap, S::Error>
//@sub Self::Tuple\b => SerializeTuple<S::SerializeTupleStruct, S::SerializeTuple, S::Error>
//@sub Self::Record\b => SerializeRecord<S::SerializeStruct, S::SerializeTuple, S::Error>
//@sub Self::Enum\b => SerializeEnum<S>
//@sub \.map\(\|serializer\|\s*MaybeNamed::(\w+)\s*\{\s*serializer,?\s*\}\) => .map(|serializer| -> (q: MaybeNamed<S::SerializeTupleStruct, S::SerializeTuple>) ensures q == (MaybeNamed::\1 { serializer }) { MaybeNamed::\1 { serializer } })
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(w) ==> num_entries.is_some() && match w.serializer {
            Ok(MaybeNamed::Named { serializer: s }) => (label matches Some(l) && is_static(l)) && s.calls() == seq![Call::TupleStruct(label->Some_0@.text, num_entries.unwrap())] && (self.serializer.reliable() ==> s.steady()),
            Ok(MaybeNamed::Unnamed { serializer: s }) => label.is_none() && s.calls() == seq![Call::Tuple(num_entries.unwrap())] && (self.serializer.reliable() ==> s.steady()),
            Err(_) => !self.serializer.reliable(),
        },
        num_entries.is_some() && (label.is_none() || (label matches Some(l) && is_static(l))) ==> r.is_ok(),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::record_begin
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Self::Seq\b => SerializeSeq<S::SerializeSeq, S::Error>
//@sub Self::Map\b => SerializeMap<S::SerializeMap, S::Error>
//@sub Self::Tuple\b => SerializeTuple<S::SerializeTupleStruct, S::SerializeTuple, S::Error>
//@sub Self::Record\b => SerializeRecord<S::SerializeStruct, S::SerializeTuple, S::Error>
//@sub Self::Enum\b => SerializeEnum<S>
//@sub \.map\(\|serializer\|\s*MaybeNamed::(\w+)\s*\{\s*serializer,?\s*\}\) => .map(|serializer| -> (q: MaybeNamed<S::SerializeStruct, S::SerializeTuple>) ensures q == (MaybeNamed::\1 { serializer }) { MaybeNamed::\1 { serializer } })
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(w) ==> num_entries.is_some() && match w.serializer {
            Ok(MaybeNamed::Named { serializer: s }) => (label matches Some(l) && is_static(l)) && s.calls() == seq![Call::Struct(label->Some_0@.text, num_entries.unwrap())] && (self.serializer.reliable() ==> s.steady()),
            Ok(MaybeNamed::Unnamed { serializer: s }) => label.is_none() && s.calls() == seq![Call::Tuple(num_entries.unwrap())] && (self.serializer.reliable() ==> s.steady()),
            Err(_) => !self.serializer.reliable(),
        },
        num_entries.is_some() && (label.is_none() || (label matches Some(l) && is_static(l))) ==> r.is_ok(),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}::enum_begin
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Self::Seq\b => SerializeSeq<S::SerializeSeq, S::Error>
//@sub Self::Map\b => SerializeMap<S::SerializeMap, S::Error>
//@sub Self::Tuple\b => SerializeTuple<S::SerializeTupleStruct, S::SerializeTuple, S::Error>
//@sub Self::Record\b => SerializeRecord<S::SerializeStruct, S::SerializeTuple, S::Error>
//@sub Self::Enum\b => SerializeEnum<S>
//@sub \.map\(\|serializer\|\s*MaybeNamed::(\w+)\s*\{\s*serializer,?\s*\}\) => .map(|serializer| -> (q: MaybeNamed<$N, S::SerializeTuple>) ensures q == (MaybeNamed::\1 { serializer }) { MaybeNamed::\1 { serializer } })
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(w) ==> (label matches Some(l) && is_static(l)) && w.name@ == label->Some_0@.text && w.serializer == self.serializer, (label matches Some(l) && is_static(l)) ==> r.is_ok(),
//@end
}
impl<V: Value> ToSerialize<V> {
//@fn sval_serde | to_serialize::{impl<V: sval::Value> serde::Serialize for ToSerialize<V>}::serialize
//@vis pub
//@sub unwrap_or_else\(\|e\|\s*Err\(S::Error::custom\(e\)\)\) => unwrap_or_else(|e| -> (q: Result<S::Ok, S::Error>) ensures q.is_err() { Err(S::Error::custom(e)) })
//@spec
    ensures match (Serializer { serializer }).given(self.0.evs()) {
        Ok(x) => r == x,
        Err(_) => r.is_err(),
    },
//@end
}
//@fn sval_serde | to_serialize::serialize
//@sub fn serialize<S: serde::Serializer>\( => fn serialize<S: serde::Serializer, V: Value>(
//@sub value: impl sval::Value => value: V
//@sub ToSerialize::new\(value\)\.serialize\( => ToSerialize::<V>::serialize(&ToSerialize::new(value),
//@spec
    ensures match (Serializer { serializer }).given(value.evs()) {
        Ok(x) => r == x,
        Err(_) => r.is_err(),
    },
//@end
impl<S: serde::ser::SerializeSeq> SerializeSeq<S, S::Error> {
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::ser::SerializeSeq> StreamSeq<'sval> for SerializeSeq<S, S::Error>}::value_computed
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: sval::Index => _i: sval::Index
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures
        r.is_ok() ==> (*old(self)).serializer.is_ok() && (*final(self)).serializer.is_ok()
            && (*final(self)).serializer->Ok_0.calls() == (*old(self)).serializer->Ok_0.calls().push(Call::Element(value.evs())),
        (*old(self)).serializer.is_ok() && (*old(self)).serializer->Ok_0.steady() && can_serialize(value.evs()) ==> r.is_ok() && (*final(self)).serializer->Ok_0.steady(),
        (r.is_err() ==> (*final(self)).serializer.is_err()),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::ser::SerializeSeq> StreamSeq<'sval> for SerializeSeq<S, S::Error>}::end
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: sval::Index => _i: sval::Index
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r.is_ok(), r matches Ok(Ok(o)) ==> self.serializer.is_ok() && made(o) == self.serializer->Ok_0.calls().push(Call::End),
        self.serializer.is_ok() && self.serializer->Ok_0.steady() ==> (r matches Ok(Ok(_))),
//@end
}
impl<S: serde::ser::SerializeMap> SerializeMap<S, S::Error> {
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::ser::SerializeMap> StreamMap<'sval> for SerializeMap<S, S::Error>}::key_computed
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: sval::Index => _i: sval::Index
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures
        r.is_ok() ==> (*old(self)).serializer.is_ok() && (*final(self)).serializer.is_ok()
            && (*final(self)).serializer->Ok_0.calls() == (*old(self)).serializer->Ok_0.calls().push(Call::Key(key.evs())),
        (*old(self)).serializer.is_ok() && (*old(self)).serializer->Ok_0.steady() && can_serialize(key.evs()) ==> r.is_ok() && (*final(self)).serializer->Ok_0.steady(),
        (r.is_err() ==> (*final(self)).serializer.is_err()),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::ser::SerializeMap> StreamMap<'sval> for SerializeMap<S, S::Error>}::value_computed
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: sval::Index => _i: sval::Index
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures
        r.is_ok() ==> (*old(self)).serializer.is_ok() && (*final(self)).serializer.is_ok()
            && (*final(self)).serializer->Ok_0.calls() == (*old(self)).serializer->Ok_0.calls().push(Call::Value(value.evs())),
        (*old(self)).serializer.is_ok() && (*old(self)).serializer->Ok_0.steady() && can_serialize(value.evs()) ==> r.is_ok() && (*final(self)).serializer->Ok_0.steady(),
        (r.is_err() ==> (*final(self)).serializer.is_err()),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::ser::SerializeMap> StreamMap<'sval> for SerializeMap<S, S::Error>}::end
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: sval::Index => _i: sval::Index
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r.is_ok(), r matches Ok(Ok(o)) ==> self.serializer.is_ok() && made(o) == self.serializer->Ok_0.calls().push(Call::End),
        self.serializer.is_ok() && self.serializer->Ok_0.steady() ==> (r matches Ok(Ok(_))),
//@end
}
impl<TOk, TError, TNamed: serde::ser::SerializeStruct<Ok = TOk, Error = TError>, TUnnamed: serde::ser::SerializeTuple<Ok = TOk, Error = TError>> SerializeRecord<TNamed, TUnnamed, TError> {
//@fn sval_serde | to_serialize::{impl<'sval, TOk, TError, TNamed: serde::ser::SerializeStruct<Ok = TOk, Error = TError>, TUnnamed: serde::ser::SerializeTuple<Ok = TOk, Error = TError>> StreamRecord<'sval> for SerializeRecord<TNamed, TUnnamed, TError>}::value_computed
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Result<S::Ok, S::Error> => Result<TOk, TError>
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: sval::Index => _i: sval::Index
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures
        r.is_ok() ==> match ((*old(self)).serializer, (*final(self)).serializer) {
            (Ok(MaybeNamed::Named { serializer: a }), Ok(MaybeNamed::Named { serializer: b })) => is_static(label) && b.calls() == a.calls().push(Call::Field(label@.text, value.evs())),
            (Ok(MaybeNamed::Unnamed { serializer: a }), Ok(MaybeNamed::Unnamed { serializer: b })) => b.calls() == a.calls().push(Call::Element(value.evs())),
            _ => false,
        },
        (*old(self)).serializer matches Ok(MaybeNamed::Named { serializer: a }) ==> (a.steady() && can_serialize(value.evs()) && is_static(label) ==> r.is_ok() && (*final(self)).serializer->Ok_0->Named_serializer.steady()),
        (*old(self)).serializer matches Ok(MaybeNamed::Unnamed { serializer: a }) ==> (a.steady() && can_serialize(value.evs()) ==> r.is_ok() && (*final(self)).serializer->Ok_0->Unnamed_serializer.steady()),
        r.is_err() && is_static(label) ==> (*final(self)).serializer.is_err(),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, TOk, TError, TNamed: serde::ser::SerializeStruct<Ok = TOk, Error = TError>, TUnnamed: serde::ser::SerializeTuple<Ok = TOk, Error = TError>> StreamRecord<'sval> for SerializeRecord<TNamed, TUnnamed, TError>}::end
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Result<S::Ok, S::Error> => Result<TOk, TError>
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: sval::Index => _i: sval::Index
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r.is_ok(), match self.serializer {
            Ok(MaybeNamed::Named { serializer: a }) => (r matches Ok(Ok(o)) ==> made(o) == a.calls().push(Call::End)) && (a.steady() ==> r->Ok_0.is_ok()),
            Ok(MaybeNamed::Unnamed { serializer: a }) => (r matches Ok(Ok(o)) ==> made(o) == a.calls().push(Call::End)) && (a.steady() ==> r->Ok_0.is_ok()),
            Err(e) => r == Ok::<Result<TOk, TError>, sval_nested::Error>(Err(e)),
        },
//@end
}
impl<TOk, TError, TNamed: serde::ser::SerializeTupleStruct<Ok = TOk, Error = TError>, TUnnamed: serde::ser::SerializeTuple<Ok = TOk, Error = TError>> SerializeTuple<TNamed, TUnnamed, TError> {
//@fn sval_serde | to_serialize::{impl<'sval, TOk, TError, TNamed: serde::ser::SerializeTupleStruct<Ok = TOk, Error = TError>, TUnnamed: serde::ser::SerializeTuple<Ok = TOk, Error = TError>> StreamTuple<'sval> for SerializeTuple<TNamed, TUnnamed, TError>}::value_computed
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Result<S::Ok, S::Error> => Result<TOk, TError>
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: sval::Index => _i: sval::Index
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures
        r.is_ok() ==> match ((*old(self)).serializer, (*final(self)).serializer) {
            (Ok(MaybeNamed::Named { serializer: a }), Ok(MaybeNamed::Named { serializer: b })) => true && b.calls() == a.calls().push(Call::Element(value.evs())),
            (Ok(MaybeNamed::Unnamed { serializer: a }), Ok(MaybeNamed::Unnamed { serializer: b })) => b.calls() == a.calls().push(Call::Element(value.evs())),
            _ => false,
        },
        (*old(self)).serializer matches Ok(MaybeNamed::Named { serializer: a }) ==> (a.steady() && can_serialize(value.evs()) && true ==> r.is_ok() && (*final(self)).serializer->Ok_0->Named_serializer.steady()),
        (*old(self)).serializer matches Ok(MaybeNamed::Unnamed { serializer: a }) ==> (a.steady() && can_serialize(value.evs()) ==> r.is_ok() && (*final(self)).serializer->Ok_0->Unnamed_serializer.steady()),
        r.is_err() && true ==> (*final(self)).serializer.is_err(),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, TOk, TError, TNamed: serde::ser::SerializeTupleStruct<Ok = TOk, Error = TError>, TUnnamed: serde::ser::SerializeTuple<Ok = TOk, Error = TError>> StreamTuple<'sval> for SerializeTuple<TNamed, TUnnamed, TError>}::end
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Result<S::Ok, S::Error> => Result<TOk, TError>
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: sval::Index => _i: sval::Index
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r.is_ok(), match self.serializer {
            Ok(MaybeNamed::Named { serializer: a }) => (r matches Ok(Ok(o)) ==> made(o) == a.calls().push(Call::End)) && (a.steady() ==> r->Ok_0.is_ok()),
            Ok(MaybeNamed::Unnamed { serializer: a }) => (r matches Ok(Ok(o)) ==> made(o) == a.calls().push(Call::End)) && (a.steady() ==> r->Ok_0.is_ok()),
            Err(e) => r == Ok::<Result<TOk, TError>, sval_nested::Error>(Err(e)),
        },
//@end
}
impl<S: serde::Serializer> SerializeEnum<S> {
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> StreamEnum<'sval> for SerializeEnum<S>}::tag
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(Ok(o)) ==> (label matches Some(l) && is_static(l)) && (index matches Some(i) && 0 <= i@.num <= u32::MAX) && made(o) == seq![Call::UnitVariant(self.name@, index->Some_0@.num as u32, label->Some_0@.text)],
        (label matches Some(l) && is_static(l)) && (index matches Some(i) && 0 <= i@.num <= u32::MAX) && self.serializer.reliable() ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> StreamEnum<'sval> for SerializeEnum<S>}::tagged_computed
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(Ok(o)) ==> (label matches Some(l) && is_static(l)) && (index matches Some(i) && 0 <= i@.num <= u32::MAX) && made(o) == seq![Call::NewtypeVariant(self.name@, index->Some_0@.num as u32, label->Some_0@.text, value.evs())],
        (label matches Some(l) && is_static(l)) && (index matches Some(i) && 0 <= i@.num <= u32::MAX) && self.serializer.reliable() && can_serialize(value.evs()) ==> (r matches Ok(Ok(_))),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> StreamEnum<'sval> for SerializeEnum<S>}::tuple_begin
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@sub Self::Tuple\b => SerializeTupleVariant<S::SerializeTupleVariant, S::Error>
//@sub Self::Record\b => SerializeRecordVariant<S::SerializeStructVariant, S::Error>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(w) ==> (label matches Some(l) && is_static(l)) && (index matches Some(i) && 0 <= i@.num <= u32::MAX) && num_entries.is_some() && match w.serializer {
            Ok(s) => s.calls() == seq![Call::TupleVariant(self.name@, index->Some_0@.num as u32, label->Some_0@.text, num_entries.unwrap())] && (self.serializer.reliable() ==> s.steady()),
            Err(_) => !self.serializer.reliable(),
        },
        (label matches Some(l) && is_static(l)) && (index matches Some(i) && 0 <= i@.num <= u32::MAX) && num_entries.is_some() ==> r.is_ok(),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> StreamEnum<'sval> for SerializeEnum<S>}::record_begin
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@sub Self::Tuple\b => SerializeTupleVariant<S::SerializeTupleVariant, S::Error>
//@sub Self::Record\b => SerializeRecordVariant<S::SerializeStructVariant, S::Error>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(w) ==> (label matches Some(l) && is_static(l)) && (index matches Some(i) && 0 <= i@.num <= u32::MAX) && num_entries.is_some() && match w.serializer {
            Ok(s) => s.calls() == seq![Call::StructVariant(self.name@, index->Some_0@.num as u32, label->Some_0@.text, num_entries.unwrap())] && (self.serializer.reliable() ==> s.steady()),
            Err(_) => !self.serializer.reliable(),
        },
        (label matches Some(l) && is_static(l)) && (index matches Some(i) && 0 <= i@.num <= u32::MAX) && num_entries.is_some() ==> r.is_ok(),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> StreamEnum<'sval> for SerializeEnum<S>}::nested
//@vis pub
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub (?s)<\s*F: FnOnce\(.*?,\s*>\( => <F>(
//@sub (?s)<\s*F: FnOnce\(.*?>>\s*\( => <F>(
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@sub _: Option<sval::Label> => _l: Option<sval::Label>
//@sub _: F => _f: F
//@spec
    ensures r.is_err(),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::Serializer> StreamEnum<'sval> for SerializeEnum<S>}::empty
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r matches Ok(Ok(o)) ==> made(o) == seq![Call::UnitStruct(self.name@)],
        self.serializer.reliable() && true ==> (r matches Ok(Ok(_))),
//@end
}
impl<S: serde::ser::SerializeStructVariant> SerializeRecordVariant<S, S::Error> {
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::ser::SerializeStructVariant> StreamRecord<'sval> for SerializeRecordVariant<S, S::Error>}::value_computed
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: sval::Index => _i: sval::Index
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures
        r.is_ok() ==> (*old(self)).serializer.is_ok() && (*final(self)).serializer.is_ok() && is_static(label)
            && (*final(self)).serializer->Ok_0.calls() == (*old(self)).serializer->Ok_0.calls().push(Call::Field(label@.text, value.evs())),
        (*old(self)).serializer.is_ok() && (*old(self)).serializer->Ok_0.steady() && can_serialize(value.evs()) && is_static(label) ==> r.is_ok() && (*final(self)).serializer->Ok_0.steady(),
        is_static(label) ==> (r.is_err() ==> (*final(self)).serializer.is_err()),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::ser::SerializeStructVariant> StreamRecord<'sval> for SerializeRecordVariant<S, S::Error>}::end
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: sval::Index => _i: sval::Index
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r.is_ok(), r matches Ok(Ok(o)) ==> self.serializer.is_ok() && made(o) == self.serializer->Ok_0.calls().push(Call::End),
        self.serializer.is_ok() && self.serializer->Ok_0.steady() ==> (r matches Ok(Ok(_))),
//@end
}
impl<S: serde::ser::SerializeTupleVariant> SerializeTupleVariant<S, S::Error> {
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::ser::SerializeTupleVariant> StreamTuple<'sval> for SerializeTupleVariant<S, S::Error>}::value_computed
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: sval::Index => _i: sval::Index
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures
        r.is_ok() ==> (*old(self)).serializer.is_ok() && (*final(self)).serializer.is_ok()
            && (*final(self)).serializer->Ok_0.calls() == (*old(self)).serializer->Ok_0.calls().push(Call::Element(value.evs())),
        (*old(self)).serializer.is_ok() && (*old(self)).serializer->Ok_0.steady() && can_serialize(value.evs()) ==> r.is_ok() && (*final(self)).serializer->Ok_0.steady(),
        (r.is_err() ==> (*final(self)).serializer.is_err()),
//@end
//@fn sval_serde | to_serialize::{impl<'sval, S: serde::ser::SerializeTupleVariant> StreamTuple<'sval> for SerializeTupleVariant<S, S::Error>}::end
//@vis pub
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: sval::Index => _i: sval::Index
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
//@closure 0
-> (q: sval_nested::Error)

//@spec
    ensures r.is_ok(), r matches Ok(Ok(o)) ==> self.serializer.is_ok() && made(o) == self.serializer->Ok_0.calls().push(Call::End),
        self.serializer.is_ok() && self.serializer->Ok_0.steady() ==> (r matches Ok(Ok(_))),
//@end
}
}
fn main() {}
}
