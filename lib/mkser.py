"""Writes specs/serde_ser.rs."""
import os
SC = "i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64".split()
out = []
w = out.append
w(r'''// C17: streams over serde's serializer.
//
// serde's interface is seen through what its methods are given: a serializer's result carries the
// calls that made it (`made`), and a compound serializer the calls so far.  A `reliable` serializer
// is one that only fails when a value given to it does.  Its implementor may do anything else.
use vstd::prelude::*;
verus! {
//@include stream.rs
pub uninterp spec fn made<T>(o: T) -> Seq<Call>;
pub ghost enum Call {
    Bool(bool), ''' + ", ".join(f"{t.upper()}({t})" for t in SC) + r''',
    Str(Seq<char>), Bytes(Seq<u8>), None, Some(Seq<Ev>), Unit,
    UnitStruct(Seq<char>), UnitVariant(Seq<char>, u32, Seq<char>),
    NewtypeStruct(Seq<char>, Seq<Ev>), NewtypeVariant(Seq<char>, u32, Seq<char>, Seq<Ev>),
    Seq(Option<usize>), Map(Option<usize>), Tuple(usize), TupleStruct(Seq<char>, usize),
    TupleVariant(Seq<char>, u32, Seq<char>, usize), Struct(Seq<char>, usize), StructVariant(Seq<char>, u32, Seq<char>, usize),
    Element(Seq<Ev>), Key(Seq<Ev>), Value(Seq<Ev>), Field(Seq<char>, Seq<Ev>), End,
}
pub mod serde {
use super::*;
// A value to serialize: the events it stands for, and whether it can be serialized at all.
pub trait Serialize { spec fn sevs(&self) -> Seq<Ev>; spec fn can(&self) -> bool; }
pub trait Serializer: Sized {
    type Ok;
    type Error: ser::Error;
    type SerializeSeq: ser::SerializeSeq<Ok = Self::Ok, Error = Self::Error>;
    type SerializeMap: ser::SerializeMap<Ok = Self::Ok, Error = Self::Error>;
    type SerializeTuple: ser::SerializeTuple<Ok = Self::Ok, Error = Self::Error>;
    type SerializeTupleStruct: ser::SerializeTupleStruct<Ok = Self::Ok, Error = Self::Error>;
    type SerializeTupleVariant: ser::SerializeTupleVariant<Ok = Self::Ok, Error = Self::Error>;
    type SerializeStruct: ser::SerializeStruct<Ok = Self::Ok, Error = Self::Error>;
    type SerializeStructVariant: ser::SerializeStructVariant<Ok = Self::Ok, Error = Self::Error>;
    spec fn reliable(&self) -> bool;
''')
def leaf(m, args, call, can="true"):
    gen = "<T: Serialize + ?Sized>" if "&T" in args else ""
    w(f"    fn {m}{gen}(self{args}) -> (r: Result<Self::Ok, Self::Error>)\n        ensures r matches Ok(o) ==> made(o) == seq![{call}], self.reliable() && {can} ==> r.is_ok();\n")
for t in ["bool"] + SC:
    leaf("serialize_" + t, f", v: {t}", f"Call::{'Bool' if t == 'bool' else t.upper()}(v)")
leaf("serialize_str", ", v: &str", "Call::Str(v@)")
leaf("serialize_bytes", ", v: &[u8]", "Call::Bytes(v@)")
leaf("serialize_none", "", "Call::None")
leaf("serialize_some", ", value: &T", "Call::Some(value.sevs())", "value.can()")
leaf("serialize_unit", "", "Call::Unit")
leaf("serialize_unit_struct", ", name: &'static str", "Call::UnitStruct(name@)")
leaf("serialize_unit_variant", ", name: &'static str, variant_index: u32, variant: &'static str", "Call::UnitVariant(name@, variant_index, variant@)")
leaf("serialize_newtype_struct", ", name: &'static str, value: &T", "Call::NewtypeStruct(name@, value.sevs())", "value.can()")
leaf("serialize_newtype_variant", ", name: &'static str, variant_index: u32, variant: &'static str, value: &T", "Call::NewtypeVariant(name@, variant_index, variant@, value.sevs())", "value.can()")
PARTS = [("SerializeSeq", "seq", ", len: Option<usize>", "Call::Seq(len)"), ("SerializeMap", "map", ", len: Option<usize>", "Call::Map(len)"),
    ("SerializeTuple", "tuple", ", len: usize", "Call::Tuple(len)"), ("SerializeTupleStruct", "tuple_struct", ", name: &'static str, len: usize", "Call::TupleStruct(name@, len)"),
    ("SerializeTupleVariant", "tuple_variant", ", name: &'static str, variant_index: u32, variant: &'static str, len: usize", "Call::TupleVariant(name@, variant_index, variant@, len)"),
    ("SerializeStruct", "struct", ", name: &'static str, len: usize", "Call::Struct(name@, len)"),
    ("SerializeStructVariant", "struct_variant", ", name: &'static str, variant_index: u32, variant: &'static str, len: usize", "Call::StructVariant(name@, variant_index, variant@, len)")]
for (tr, m, args, call) in PARTS:
    w(f"    fn serialize_{m}(self{args}) -> (r: Result<Self::{tr}, Self::Error>)\n        ensures r matches Ok(o) ==> ser::{tr}::calls(&o) == seq![{call}] && (self.reliable() ==> ser::{tr}::steady(&o)), self.reliable() ==> r.is_ok();\n")
w("}\npub mod ser {\nuse super::*;\npub trait Error: Sized { fn custom(msg: super::super::sval_nested::Error) -> Self; }\n")
ITEMS = {"SerializeSeq": [("serialize_element", "value", "Call::Element(value.sevs())", "")],
    "SerializeMap": [("serialize_key", "key", "Call::Key(key.sevs())", ""), ("serialize_value", "value", "Call::Value(value.sevs())", "")],
    "SerializeTuple": [("serialize_element", "value", "Call::Element(value.sevs())", "")],
    "SerializeTupleStruct": [("serialize_field", "value", "Call::Element(value.sevs())", "")],
    "SerializeTupleVariant": [("serialize_field", "value", "Call::Element(value.sevs())", "")],
    "SerializeStruct": [("serialize_field", "value", "Call::Field(key@, value.sevs())", "key: &'static str, ")],
    "SerializeStructVariant": [("serialize_field", "value", "Call::Field(key@, value.sevs())", "key: &'static str, ")]}
for tr, ms in ITEMS.items():
    w(f"pub trait {tr}: Sized {{\n    type Ok;\n    type Error;\n    spec fn calls(&self) -> Seq<Call>;\n    spec fn steady(&self) -> bool;\n")
    for (m, p, call, a) in ms:
        w(f'''    fn {m}<T: Serialize + ?Sized>(&mut self, {a}{p}: &T) -> (r: Result<(), Self::Error>)
        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push({call}),
            (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && {p}.can() ==> r.is_ok();
''')
    w("    fn end(self) -> (r: Result<Self::Ok, Self::Error>)\n        ensures r matches Ok(o) ==> made(o) == self.calls().push(Call::End), self.steady() ==> r.is_ok();\n}\n")
w(r'''}
}
pub mod sval_nested {
    use super::*;
    pub struct Error;
    pub type Result<T = (), E = Error> = core::result::Result<T, E>;
    impl Error { #[verifier::external_body] pub fn invalid_value(msg: &'static str) -> Error { Error } }
    #[verifier::reject_recursive_types(Ok)]
    #[verifier::external_body]
    pub struct Unsupported<Ok>(core::marker::PhantomData<Ok>);
}
pub mod sval { pub use super::*; }
pub assume_specification<T, E, F: FnOnce(E) -> T>[ Result::<T, E>::unwrap_or_else ](r: Result<T, E>, f: F) -> (o: T)
    requires r matches Err(e) ==> f.requires((e,)),
    ensures match r { Ok(t) => o == t, Err(e) => f.ensures((e,), o) };
pub mod to_serialize {
use super::{sval, serde, sval_nested, made, is_static, Call, Ev, Seq, Value, LabelV, IndexV};
use serde::{Serialize as _, Serializer as _};
use serde::ser::{Error as _, SerializeSeq as _, SerializeMap as _, SerializeTuple as _, SerializeTupleStruct as _, SerializeTupleVariant as _, SerializeStruct as _, SerializeStructVariant as _};
use vstd::prelude::*;
pub struct ToSerialize<V>(pub V);
// that a value can be serialized: the nested calls for it succeed (C18), and each child can
pub uninterp spec fn can_serialize(evs: Seq<Ev>) -> bool;
impl<V: Value> serde::Serialize for ToSerialize<V> {
    open spec fn sevs(&self) -> Seq<Ev> { self.0.evs() }
    open spec fn can(&self) -> bool { can_serialize(self.0.evs()) }
}
impl<V: Value> ToSerialize<V> {
//@fn sval_serde | to_serialize::{impl<V: sval::Value> ToSerialize<V>}::new
//@vis pub
//@sub const fn => fn
//@spec
    ensures r.0 == value,
//@end
}
''')
for s in "Serializer SerializeSeq SerializeMap SerializeTuple MaybeNamed SerializeRecord SerializeEnum SerializeRecordVariant SerializeTupleVariant".split():
    w(f"//@use sval_serde | to_serialize::{s}\n")
CL = r'''//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.as_static_str\(\)\) => .and_then(|\1: sval::Label| -> (q: Option<&'static str>) ensures q.is_some() == is_static(\1), q matches Some(x) ==> x@ == \1@.text { \1.as_static_str() })
//@sub \.and_then\(\|(\w+)\|\s*\1\s*\.to_u32\(\)\) => .and_then(|\1: sval::Index| -> (q: Option<u32>) ensures q == (if 0 <= \1@.num <= u32::MAX { Some(\1@.num as u32) } else { None }) { \1.to_u32() })
//@sub Self::Ok\b => Result<S::Ok, S::Error>
'''
PATH = "to_serialize::{impl<'sval, S: serde::Serializer> Stream<'sval> for Serializer<S>}"
w("impl<S: serde::Serializer> Serializer<S> {\n//@fn sval_serde | to_serialize::{impl<S> Serializer<S>}::new\n//@vis pub\n//@spec\n    ensures r.serializer == serializer,\n//@end\n")
w(r'''// What streaming a value into a serializer gives (C18).
    pub uninterp spec fn given(self, evs: Seq<Ev>) -> sval_nested::Result<Result<S::Ok, S::Error>>;
    #[verifier::external_body]
    pub fn value_ref<V: Value>(self, value: &V) -> (r: sval_nested::Result<Result<S::Ok, S::Error>>)
        ensures r == self.given(value.evs()),
    { unimplemented!() }
''')
def fn(path, m, spec, extra="", as_=None):
    w(f"//@fn sval_serde | {path}::{m}\n//@vis pub\n{CL}{extra}//@closure 0\n-> (q: sval_nested::Error)\n\n//@spec\n{spec}//@end\n")
def one(m, call, can="true", ok="true", path=PATH, extra=""):
    fn(path, m, f"    ensures r matches Ok(Ok(o)) ==> made(o) == seq![{call}],\n        self.serializer.reliable() && {can} ==> (r matches Ok(Ok(_))),\n", extra)
one("null", "Call::None")
for t in ["bool"] + SC:
    one(t, f"Call::{'Bool' if t == 'bool' else t.upper()}(value)")
one("text_computed", "Call::Str(text@)")
one("binary_computed", "Call::Bytes(binary@)")
ST = "(label matches Some(l) && is_static(l))"
NM = "label->Some_0@.text"
V32 = "(index matches Some(i) && 0 <= i@.num <= u32::MAX)"
VI = "index->Some_0@.num as u32"
TAG = r'''//@sub Option<(sval::)?Label> => Option<sval::Label>
//@sub _: Option<sval::Index> => index: Option<sval::Index>
//@sub _: Option<sval::Tag> => tag: Option<sval::Tag>
'''
fn(PATH, "tag", f'''    ensures
        tag == Some(sval::tags::RUST_OPTION_NONE) ==> (r matches Ok(Ok(o)) ==> made(o) == seq![Call::None]) && (self.serializer.reliable() ==> (r matches Ok(Ok(_)))),
        tag == Some(sval::tags::RUST_UNIT) ==> (r matches Ok(Ok(o)) ==> made(o) == seq![Call::Unit]) && (self.serializer.reliable() ==> (r matches Ok(Ok(_)))),
        tag != Some(sval::tags::RUST_OPTION_NONE) && tag != Some(sval::tags::RUST_UNIT) ==> (r matches Ok(Ok(o)) ==> {ST} && made(o) == seq![Call::UnitStruct({NM})]),
        self.serializer.reliable() && {ST} ==> (r matches Ok(Ok(_))),
''', TAG)
fn(PATH, "tagged_computed", f'''    ensures
        tag == Some(sval::tags::RUST_OPTION_SOME) ==> (r matches Ok(Ok(o)) ==> made(o) == seq![Call::Some(value.evs())]) && (self.serializer.reliable() && can_serialize(value.evs()) ==> (r matches Ok(Ok(_)))),
        tag != Some(sval::tags::RUST_OPTION_SOME) ==> (r matches Ok(Ok(o)) ==> {ST} && made(o) == seq![Call::NewtypeStruct({NM}, value.evs())]),
        self.serializer.reliable() && {ST} && can_serialize(value.evs()) ==> (r matches Ok(Ok(_))),
''', TAG)
TY = r'''//@sub Self::Seq\b => SerializeSeq<S::SerializeSeq, S::Error>
//@sub Self::Map\b => SerializeMap<S::SerializeMap, S::Error>
//@sub Self::Tuple\b => SerializeTuple<S::SerializeTupleStruct, S::SerializeTuple, S::Error>
//@sub Self::Record\b => SerializeRecord<S::SerializeStruct, S::SerializeTuple, S::Error>
//@sub Self::Enum\b => SerializeEnum<S>
//@sub \.map\(\|serializer\|\s*MaybeNamed::(\w+)\s*\{\s*serializer,?\s*\}\) => .map(|serializer| -> (q: MaybeNamed<$N, S::SerializeTuple>) ensures q == (MaybeNamed::\1 { serializer }) { MaybeNamed::\1 { serializer } })
'''
for m, tr in (("seq", "SerializeSeq"), ("map", "SerializeMap")):
    fn(PATH, m + "_begin", f'''    ensures r matches Ok(w), r->Ok_0.serializer matches Ok(s) ==> s.calls() == seq![Call::{m.capitalize()}(num_entries)] && (self.serializer.reliable() ==> s.steady()),
        self.serializer.reliable() ==> r->Ok_0.serializer.is_ok(),
''', TY)
for m, named, call in (("tuple", "SerializeTupleStruct", "TupleStruct"), ("record", "SerializeStruct", "Struct")):
    fn(PATH, m + "_begin", f'''    ensures r matches Ok(w) ==> num_entries.is_some() && match w.serializer {{
            Ok(MaybeNamed::Named {{ serializer: s }}) => {ST} && s.calls() == seq![Call::{call}({NM}, num_entries.unwrap())] && (self.serializer.reliable() ==> s.steady()),
            Ok(MaybeNamed::Unnamed {{ serializer: s }}) => label.is_none() && s.calls() == seq![Call::Tuple(num_entries.unwrap())] && (self.serializer.reliable() ==> s.steady()),
            Err(_) => !self.serializer.reliable(),
        }},
        num_entries.is_some() && (label.is_none() || {ST}) ==> r.is_ok(),
''', TY.replace('$N', 'S::' + named) + TAG)
fn(PATH, "enum_begin", f"    ensures r matches Ok(w) ==> {ST} && w.name@ == {NM} && w.serializer == self.serializer, {ST} ==> r.is_ok(),\n", TY + TAG)
w("}\n")
w(r'''impl<V: Value> ToSerialize<V> {
//@fn sval_serde | to_serialize::{impl<V: sval::Value> serde::Serialize for ToSerialize<V>}::serialize
//@vis pub
//@sub unwrap_or_else\(\|e\|\s*Err\(S::Error::custom\(e\)\)\) => unwrap_or_else(|e| -> (q: Result<S::Ok, S::Error>) ensures q.is_err() { Err(S::Error::custom(e)) })
//@spec
    ensures match (Serializer { serializer }).given(self.0.evs()) {
        Ok(x) => r == x,
        Err(_) => r.is_err(),
    },
//@end
}
//@fn sval_serde | to_serialize::serialize
//@sub fn serialize<S: serde::Serializer>\( => fn serialize<S: serde::Serializer, V: Value>(
//@sub value: impl sval::Value => value: V
//@sub ToSerialize::new\(value\)\.serialize\( => ToSerialize::<V>::serialize(&ToSerialize::new(value),
//@spec
    ensures match (Serializer { serializer }).given(value.evs()) {
        Ok(x) => r == x,
        Err(_) => r.is_err(),
    },
//@end
''')
def part(hdr, path, wrap, items, end, extra=""):
    w(hdr + " {\n")
    for (m, spec) in items:
        fn(path, m, spec, extra)
    fn(path, "end", end, extra)
    w("}\n")
def simple(tr, nst, ty, ms, label=False):
    path = f"to_serialize::{{impl<'sval, S: serde::ser::{tr}> {nst}<'sval> for {ty}<S, S::Error>}}"
    items = []
    for (m, p, call) in ms:
        lab = " && is_static(label)" if label else ""
        items.append((m, f'''    ensures
        r.is_ok() ==> (*old(self)).serializer.is_ok() && (*final(self)).serializer.is_ok(){lab}
            && (*final(self)).serializer->Ok_0.calls() == (*old(self)).serializer->Ok_0.calls().push({call}),
        (*old(self)).serializer.is_ok() && (*old(self)).serializer->Ok_0.steady() && can_serialize({p}.evs()){lab} ==> r.is_ok() && (*final(self)).serializer->Ok_0.steady(),
        {"is_static(label) ==> " if label else ""}(r.is_err() ==> (*final(self)).serializer.is_err()),
'''))
    end = '''    ensures r.is_ok(), r matches Ok(Ok(o)) ==> self.serializer.is_ok() && made(o) == self.serializer->Ok_0.calls().push(Call::End),
        self.serializer.is_ok() && self.serializer->Ok_0.steady() ==> (r matches Ok(Ok(_))),
'''
    part(f"impl<S: serde::ser::{tr}> {ty}<S, S::Error>", path, None, items, end, TAG.replace("//@sub _: Option<sval::Index>", "//@sub _: sval::Index => _i: sval::Index\n//@sub _: Option<sval::Index>"))
simple("SerializeSeq", "StreamSeq", "SerializeSeq", [("value_computed", "value", "Call::Element(value.evs())")])
simple("SerializeMap", "StreamMap", "SerializeMap", [("key_computed", "key", "Call::Key(key.evs())"), ("value_computed", "value", "Call::Value(value.evs())")])
def named(tr, nst, ty, call, label):
    path = f"to_serialize::{{impl<'sval, TOk, TError, TNamed: serde::ser::{tr}<Ok = TOk, Error = TError>, TUnnamed: serde::ser::SerializeTuple<Ok = TOk, Error = TError>> {nst}<'sval> for {ty}<TNamed, TUnnamed, TError>}}"
    lab = "is_static(label)" if label else "true"
    spec = f'''    ensures
        r.is_ok() ==> match ((*old(self)).serializer, (*final(self)).serializer) {{
            (Ok(MaybeNamed::Named {{ serializer: a }}), Ok(MaybeNamed::Named {{ serializer: b }})) => {lab} && b.calls() == a.calls().push({call}),
            (Ok(MaybeNamed::Unnamed {{ serializer: a }}), Ok(MaybeNamed::Unnamed {{ serializer: b }})) => b.calls() == a.calls().push(Call::Element(value.evs())),
            _ => false,
        }},
        (*old(self)).serializer matches Ok(MaybeNamed::Named {{ serializer: a }}) ==> (a.steady() && can_serialize(value.evs()) && {lab} ==> r.is_ok() && (*final(self)).serializer->Ok_0->Named_serializer.steady()),
        (*old(self)).serializer matches Ok(MaybeNamed::Unnamed {{ serializer: a }}) ==> (a.steady() && can_serialize(value.evs()) ==> r.is_ok() && (*final(self)).serializer->Ok_0->Unnamed_serializer.steady()),
        r.is_err() && {lab} ==> (*final(self)).serializer.is_err(),
'''
    end = '''    ensures r.is_ok(), match self.serializer {
            Ok(MaybeNamed::Named { serializer: a }) => (r matches Ok(Ok(o)) ==> made(o) == a.calls().push(Call::End)) && (a.steady() ==> r->Ok_0.is_ok()),
            Ok(MaybeNamed::Unnamed { serializer: a }) => (r matches Ok(Ok(o)) ==> made(o) == a.calls().push(Call::End)) && (a.steady() ==> r->Ok_0.is_ok()),
            Err(e) => r == Ok::<Result<TOk, TError>, sval_nested::Error>(Err(e)),
        },
'''
    part(f"impl<TOk, TError, TNamed: serde::ser::{tr}<Ok = TOk, Error = TError>, TUnnamed: serde::ser::SerializeTuple<Ok = TOk, Error = TError>> {ty}<TNamed, TUnnamed, TError>", path, None, [("value_computed", spec)], end,
        "//@sub Result<S::Ok, S::Error> => Result<TOk, TError>\n" + TAG.replace("//@sub _: Option<sval::Index>", "//@sub _: sval::Index => _i: sval::Index\n//@sub _: Option<sval::Index>"))
named("SerializeStruct", "StreamRecord", "SerializeRecord", "Call::Field(label@.text, value.evs())", True)
named("SerializeTupleStruct", "StreamTuple", "SerializeTuple", "Call::Element(value.evs())", False)
EP = "to_serialize::{impl<'sval, S: serde::Serializer> StreamEnum<'sval> for SerializeEnum<S>}"
w("impl<S: serde::Serializer> SerializeEnum<S> {\n")
OK = f"{ST} && {V32}"
fn(EP, "tag", f'''    ensures r matches Ok(Ok(o)) ==> {OK} && made(o) == seq![Call::UnitVariant(self.name@, {VI}, {NM})],
        {OK} && self.serializer.reliable() ==> (r matches Ok(Ok(_))),
''', TAG)
fn(EP, "tagged_computed", f'''    ensures r matches Ok(Ok(o)) ==> {OK} && made(o) == seq![Call::NewtypeVariant(self.name@, {VI}, {NM}, value.evs())],
        {OK} && self.serializer.reliable() && can_serialize(value.evs()) ==> (r matches Ok(Ok(_))),
''', TAG)
ETY = r'''//@sub Self::Tuple\b => SerializeTupleVariant<S::SerializeTupleVariant, S::Error>
//@sub Self::Record\b => SerializeRecordVariant<S::SerializeStructVariant, S::Error>
'''
for m, call in (("tuple", "TupleVariant"), ("record", "StructVariant")):
    fn(EP, m + "_begin", f'''    ensures r matches Ok(w) ==> {OK} && num_entries.is_some() && match w.serializer {{
            Ok(s) => s.calls() == seq![Call::{call}(self.name@, {VI}, {NM}, num_entries.unwrap())] && (self.serializer.reliable() ==> s.steady()),
            Err(_) => !self.serializer.reliable(),
        }},
        {OK} && num_entries.is_some() ==> r.is_ok(),
''', TAG + ETY)
w(f'''//@fn sval_serde | {EP}::nested
//@vis pub
//@sub Self::Ok\\b => Result<S::Ok, S::Error>
//@sub (?s)<\\s*F: FnOnce\\(.*?,\\s*>\\( => <F>(
//@sub (?s)<\\s*F: FnOnce\\(.*?>>\\s*\\( => <F>(
{TAG}//@sub _: Option<sval::Label> => _l: Option<sval::Label>
//@sub _: F => _f: F
//@spec
    ensures r.is_err(),
//@end
''')
one("empty", "Call::UnitStruct(self.name@)", path=EP)
w("}\n")
simple("SerializeStructVariant", "StreamRecord", "SerializeRecordVariant", [("value_computed", "value", "Call::Field(label@.text, value.evs())")], True)
simple("SerializeTupleVariant", "StreamTuple", "SerializeTupleVariant", [("value_computed", "value", "Call::Element(value.evs())")])
w("}\nfn main() {}\n}\n")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "serde_ser.rs"), "w").write("".join(out))
