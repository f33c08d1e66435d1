// C09: converting a value to a primitive never changes it.
#![verifier::exec_allows_no_decreases_clause]
use vstd::prelude::*;
verus! {
//@include data.rs
//@include events.rs
// A stream is known by three things: which sequences of events, in the words of the
// required methods, are consistent with its state (`did`); which events it is sure to
// accept (`takes`); and the scalar it holds (`full`).
pub ghost struct St { pub did: spec_fn(Seq<C>) -> bool, pub takes: spec_fn(Ev) -> bool, pub full: Option<C> }

pub trait Value {
    spec fn evs(&self) -> Seq<Ev>;
}
// Whether a value reports an error of its own.
pub uninterp spec fn fails<V: ?Sized>(v: &V) -> bool;
pub trait Stream<'sval> {
    spec fn st(&self) -> St;

    fn value<V: Value + ?Sized>(&mut self, v: &'sval V) -> (r: Result)
        ensures told((*old(self)).st(), (*final(self)).st(), r, v.evs(), fails(v));

    fn value_computed<V: Value + ?Sized>(&mut self, v: &V) -> (r: Result)
        ensures told((*old(self)).st(), (*final(self)).st(), r, v.evs(), fails(v));

    fn null(&mut self) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::Null);

    fn bool(&mut self, value: bool) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::Bool(value));

    fn text_begin(&mut self, num_bytes: Option<usize>) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::TextBegin(num_bytes));

    fn text_fragment(&mut self, fragment: &'sval str) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::TextFragment(fragment@, true));

    fn text_fragment_computed(&mut self, fragment: &str) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::TextFragment(fragment@, false));

    fn text_end(&mut self) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::TextEnd);

    fn binary_begin(&mut self, num_bytes: Option<usize>) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::BinaryBegin(num_bytes));

    fn binary_fragment(&mut self, fragment: &'sval [u8]) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::BinaryFragment(fragment@, true));

    fn binary_fragment_computed(&mut self, fragment: &[u8]) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::BinaryFragment(fragment@, false));

    fn binary_end(&mut self) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::BinaryEnd);

    fn u8(&mut self, value: u8) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::U8(value));

    fn u16(&mut self, value: u16) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::U16(value));

    fn u32(&mut self, value: u32) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::U32(value));

    fn u64(&mut self, value: u64) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::U64(value));

    fn u128(&mut self, value: u128) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::U128(value));

    fn i8(&mut self, value: i8) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::I8(value));

    fn i16(&mut self, value: i16) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::I16(value));

    fn i32(&mut self, value: i32) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::I32(value));

    fn i64(&mut self, value: i64) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::I64(value));

    fn i128(&mut self, value: i128) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::I128(value));

    fn f32(&mut self, value: f32) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::F32(value));

    fn f64(&mut self, value: f64) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::F64(value));

    fn map_begin(&mut self, num_entries: Option<usize>) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::MapBegin(num_entries));

    fn map_key_begin(&mut self) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::MapKeyBegin);

    fn map_key_end(&mut self) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::MapKeyEnd);

    fn map_value_begin(&mut self) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::MapValueBegin);

    fn map_value_end(&mut self) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::MapValueEnd);

    fn map_end(&mut self) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::MapEnd);

    fn seq_begin(&mut self, num_entries: Option<usize>) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::SeqBegin(num_entries));

    fn seq_value_begin(&mut self) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::SeqValueBegin);

    fn seq_value_end(&mut self) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::SeqValueEnd);

    fn seq_end(&mut self) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::SeqEnd);

    fn enum_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::EnumBegin(ot(tag), ol(label), oi(index)));

    fn enum_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::EnumEnd(ot(tag), ol(label), oi(index)));

    fn tagged_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::TaggedBegin(ot(tag), ol(label), oi(index)));

    fn tagged_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::TaggedEnd(ot(tag), ol(label), oi(index)));

    fn tag(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::Tag(ot(tag), ol(label), oi(index)));

    fn tag_hint(&mut self, tag: &Tag) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::TagHint(*tag));

    fn record_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>, num_entries: Option<usize>) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries));

    fn record_value_begin(&mut self, tag: Option<&Tag>, label: &Label) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::RecordValueBegin(ot(tag), label@));

    fn record_value_end(&mut self, tag: Option<&Tag>, label: &Label) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::RecordValueEnd(ot(tag), label@));

    fn record_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::RecordEnd(ot(tag), ol(label), oi(index)));

    fn tuple_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>, num_entries: Option<usize>) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries));

    fn tuple_value_begin(&mut self, tag: Option<&Tag>, index: &Index) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::TupleValueBegin(ot(tag), index@));

    fn tuple_value_end(&mut self, tag: Option<&Tag>, index: &Index) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::TupleValueEnd(ot(tag), index@));

    fn tuple_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::TupleEnd(ot(tag), ol(label), oi(index)));

    fn record_tuple_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>, num_entries: Option<usize>) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::RecordTupleBegin(ot(tag), ol(label), oi(index), num_entries));

    fn record_tuple_value_begin(&mut self, tag: Option<&Tag>, label: &Label, index: &Index) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::RecordTupleValueBegin(ot(tag), label@, index@));

    fn record_tuple_value_end(&mut self, tag: Option<&Tag>, label: &Label, index: &Index) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::RecordTupleValueEnd(ot(tag), label@, index@));

    fn record_tuple_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        ensures took((*old(self)).st(), (*final(self)).st(), r, Ev::RecordTupleEnd(ot(tag), ol(label), oi(index)));

}


// Text is counted in bytes.
pub uninterp spec fn utf8_len(s: Seq<char>) -> nat;
pub open spec fn text_evs(s: Seq<char>) -> Seq<Ev> {
    seq![Ev::TextBegin(Some(utf8_len(s) as usize)), Ev::TextFragment(s, true), Ev::TextEnd]
}
impl Value for str { open spec fn evs(&self) -> Seq<Ev> { text_evs(self@) } }
//@include builtin.rs
// What every event means in terms of the eleven events each stream must support, plus
// tagged values.  Written from the data model, not from the code.
pub ghost enum C {
    Null, Bool(bool), Int(int), F64(f64),
    TextBegin(Option<usize>), Text(Seq<char>), TextEnd,
    SeqBegin(Option<usize>), SeqValueBegin, SeqValueEnd, SeqEnd,
    TaggedBegin(Option<Tag>, Option<LabelV>, Option<IndexV>),
    TaggedEnd(Option<Tag>, Option<LabelV>, Option<IndexV>),
}

// The decimal digits of an integer, as the fragments `Display` writes them in.
pub uninterp spec fn c_digits(v: int) -> Seq<C>;
// An integer outside the 64bit signed range is an arbitrary precision number: tagged text.
pub open spec fn c_int(v: int) -> Seq<C> {
    if i64::MIN <= v <= i64::MAX { seq![C::Int(v)] }
    else { seq![C::TaggedBegin(Some(tags::NUMBER), None, None)] + c_digits(v) + seq![C::TaggedEnd(Some(tags::NUMBER), None, None)] }
}
pub uninterp spec fn widened(v: f32) -> f64;
// trusted: the exact widening cast (decided for every bit pattern by Kani, harness cast_f32)
#[verifier::external_body]
pub fn widen(v: f32) -> (r: f64)
    ensures r == widened(v),
{ v as f64 }

pub open spec fn c_bytes(b: Seq<u8>) -> Seq<C>
    decreases b.len(),
{
    if b.len() == 0 { seq![] } else { c_bytes(b.drop_last()) + seq![C::SeqValueBegin, C::Int(b.last() as int), C::SeqValueEnd] }
}
pub open spec fn c_text(s: Seq<char>) -> Seq<C> { seq![C::TextBegin(Some(utf8_len(s) as usize)), C::Text(s), C::TextEnd] }
pub open spec fn c_map_begin(n: Option<usize>) -> Seq<C> { seq![C::SeqBegin(n)] }
pub open spec fn c_key_begin() -> Seq<C> { seq![C::SeqValueBegin, C::TaggedBegin(None, None, None), C::SeqBegin(Some(2)), C::SeqValueBegin] }
pub open spec fn c_key_end() -> Seq<C> { seq![C::SeqValueEnd] }
pub open spec fn c_val_begin() -> Seq<C> { seq![C::SeqValueBegin] }
pub open spec fn c_val_end() -> Seq<C> { seq![C::SeqValueEnd, C::SeqEnd, C::TaggedEnd(None, None, None), C::SeqValueEnd] }
pub open spec fn c1(e: Ev) -> Seq<C> {
    match e {
        Ev::Null => seq![C::Null],
        Ev::Bool(b) => seq![C::Bool(b)],
        Ev::TextBegin(n) => seq![C::TextBegin(n)],
        Ev::TextFragment(s, _) => seq![C::Text(s)],
        Ev::TextEnd => seq![C::TextEnd],
        Ev::BinaryBegin(n) => seq![C::SeqBegin(n)],
        Ev::BinaryFragment(s, _) => c_bytes(s),
        Ev::BinaryEnd => seq![C::SeqEnd],
        Ev::U8(v) => c_int(v as int),
        Ev::U16(v) => c_int(v as int),
        Ev::U32(v) => c_int(v as int),
        Ev::U64(v) => c_int(v as int),
        Ev::U128(v) => c_int(v as int),
        Ev::I8(v) => c_int(v as int),
        Ev::I16(v) => c_int(v as int),
        Ev::I32(v) => c_int(v as int),
        Ev::I64(v) => c_int(v as int),
        Ev::I128(v) => c_int(v as int),
        Ev::F32(v) => seq![C::F64(widened(v))],
        Ev::F64(v) => seq![C::F64(v)],
        Ev::MapBegin(n) => c_map_begin(n),
        Ev::MapKeyBegin => c_key_begin(),
        Ev::MapKeyEnd => c_key_end(),
        Ev::MapValueBegin => c_val_begin(),
        Ev::MapValueEnd => c_val_end(),
        Ev::MapEnd => seq![C::SeqEnd],
        Ev::SeqBegin(n) => seq![C::SeqBegin(n)],
        Ev::SeqValueBegin => seq![C::SeqValueBegin],
        Ev::SeqValueEnd => seq![C::SeqValueEnd],
        Ev::SeqEnd => seq![C::SeqEnd],
        Ev::EnumBegin(t, l, i) => seq![C::TaggedBegin(t, l, i)],
        Ev::EnumEnd(t, l, i) => seq![C::TaggedEnd(t, l, i)],
        Ev::TaggedBegin(t, l, i) => seq![C::TaggedBegin(t, l, i)],
        Ev::TaggedEnd(t, l, i) => seq![C::TaggedEnd(t, l, i)],
        Ev::Tag(t, l, i) => seq![C::TaggedBegin(t, l, i)]
            + (if t == Some(tags::RUST_OPTION_NONE) || l.is_none() { seq![C::Null] } else { c_text(l.unwrap().text) })
            + seq![C::TaggedEnd(t, l, i)],
        Ev::TagHint(_) => seq![],
        Ev::RecordBegin(t, l, i, n) | Ev::RecordTupleBegin(t, l, i, n) => seq![C::TaggedBegin(t, l, i)] + c_map_begin(n),
        Ev::RecordValueBegin(_, l) | Ev::RecordTupleValueBegin(_, l, _) => c_key_begin() + c_text(l.text) + c_key_end() + c_val_begin(),
        Ev::RecordValueEnd(_, l) | Ev::RecordTupleValueEnd(_, l, _) => c_val_end(),
        Ev::RecordEnd(t, l, i) | Ev::RecordTupleEnd(t, l, i) => seq![C::SeqEnd, C::TaggedEnd(t, l, i)],
        Ev::TupleBegin(t, l, i, n) => seq![C::TaggedBegin(t, l, i), C::SeqBegin(n)],
        Ev::TupleValueBegin(_, _) => seq![C::SeqValueBegin],
        Ev::TupleValueEnd(_, _) => seq![C::SeqValueEnd],
        Ev::TupleEnd(t, l, i) => seq![C::SeqEnd, C::TaggedEnd(t, l, i)],
    }
}
pub open spec fn canon(s: Seq<Ev>) -> Seq<C>
    decreases s.len(),
{
    if s.len() == 0 { seq![] } else { canon(s.drop_last()) + c1(s.last()) }
}
pub broadcast proof fn canon_append(a: Seq<Ev>, b: Seq<Ev>)
    ensures #[trigger] canon(a + b) =~= canon(a) + canon(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        canon_append(a, b.drop_last());
    }
}
pub broadcast proof fn canon_push(a: Seq<Ev>, e: Ev)
    ensures #[trigger] canon(a.push(e)) =~= canon(a) + c1(e),
{
    assert(a.push(e).drop_last() =~= a);
}
pub broadcast proof fn canon_lend(a: Seq<Ev>, l: bool)
    ensures #[trigger] canon(lend(a, l)) =~= canon(a),
    decreases a.len(),
{
    if a.len() > 0 {
        canon_lend(a.drop_last(), l);
        assert(lend(a, l).drop_last() =~= lend(a.drop_last(), l));
    }
}
pub broadcast proof fn c_assoc(a: Seq<C>, b: Seq<C>, c: Seq<C>)
    ensures #[trigger] ((a + b) + c) =~= a + (b + c),
{ }
pub broadcast proof fn canon_text(s: Seq<char>)
    ensures #[trigger] canon(text_evs(s)) =~= c_text(s),
{
    reveal_with_fuel(canon, 4);
    assert(text_evs(s).drop_last() =~= seq![Ev::TextBegin(Some(utf8_len(s) as usize)), Ev::TextFragment(s, true)]);
    assert(text_evs(s).drop_last().drop_last() =~= seq![Ev::TextBegin(Some(utf8_len(s) as usize))]);
    assert(text_evs(s).drop_last().drop_last().drop_last() =~= seq![]);
}
pub broadcast proof fn canon_one(e: Ev)
    ensures #[trigger] canon(seq![e]) =~= c1(e),
{
    reveal_with_fuel(canon, 2);
    assert(seq![e].drop_last() =~= seq![]);
}
pub broadcast proof fn c_bytes_all(a: Seq<u8>, n: int)
    requires n == a.len(),
    ensures #[trigger] c_bytes(a.take(n)) == c_bytes(a),
{ assert(a.take(n) =~= a); }
pub proof fn c_bytes_push(a: Seq<u8>, b: u8)
    ensures c_bytes(a.push(b)) =~= c_bytes(a) + seq![C::SeqValueBegin, C::Int(b as int), C::SeqValueEnd],
{ assert(a.push(b).drop_last() =~= a); }

// `fmt::Display` of the standard library's integers prints exactly their digits: trusted.
pub trait Printed {
    spec fn printed(&self) -> Seq<C>;
}
impl Printed for u128 { open spec fn printed(&self) -> Seq<C> { c_digits(*self as int) } }
impl Printed for i128 { open spec fn printed(&self) -> Seq<C> { c_digits(*self as int) } }
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct Display<V> { value: V }
impl<V: Printed> Display<V> {
    #[verifier::external_body]
    pub fn new(value: V) -> (r: Self)
        ensures canon(r.evs()) == value.printed(),
    { unimplemented!() }
}
pub uninterp spec fn display_evs<V>(d: Display<V>) -> Seq<Ev>;
impl<V: Printed> Value for Display<V> {
    open spec fn evs(&self) -> Seq<Ev> { display_evs(*self) }
}


// The call stands for the event it was given.
pub open spec fn meant(old: St, new: St, r: Result, e: Ev) -> bool {
    &&& new.takes == old.takes
    &&& r.is_ok() ==> forall|l: Seq<C>| #[trigger] (old.did)(l) ==> (new.did)(l + c1(e))
}
// The scalar held after an event that is taken.
pub open spec fn fill(f: Option<C>, e: Ev) -> Option<C> {
    match e {
        Ev::Bool(b) => Some(C::Bool(b)),
        Ev::F32(v) => Some(C::F64(widened(v))),
        Ev::F64(v) => Some(C::F64(v)),
        Ev::U8(v) => Some(C::Int(v as int)),
        Ev::U16(v) => Some(C::Int(v as int)),
        Ev::U32(v) => Some(C::Int(v as int)),
        Ev::U64(v) => Some(C::Int(v as int)),
        Ev::U128(v) => Some(C::Int(v as int)),
        Ev::I8(v) => Some(C::Int(v as int)),
        Ev::I16(v) => Some(C::Int(v as int)),
        Ev::I32(v) => Some(C::Int(v as int)),
        Ev::I64(v) => Some(C::Int(v as int)),
        Ev::I128(v) => Some(C::Int(v as int)),
        _ => f,
    }
}
pub open spec fn took(old: St, new: St, r: Result, e: Ev) -> bool {
    &&& meant(old, new, r, e)
    &&& (old.takes)(e) ==> r.is_ok() && new.full == fill(old.full, e)
}
pub open spec fn all_taken(s: St, evs: Seq<Ev>) -> bool { forall|i: int| 0 <= i < evs.len() ==> (s.takes)(#[trigger] evs[i]) }
pub open spec fn filled(f: Option<C>, evs: Seq<Ev>) -> Option<C>
    decreases evs.len(),
{ if evs.len() == 0 { f } else { fill(filled(f, evs.drop_last()), evs.last()) } }
// A whole value: its events in order, unless the stream or the value fails.
pub open spec fn told(old: St, new: St, r: Result, evs: Seq<Ev>, fails: bool) -> bool {
    &&& new.takes == old.takes
    &&& r.is_ok() ==> forall|l: Seq<C>| #[trigger] (old.did)(l) ==> (new.did)(l + canon(evs))
    &&& !fails && all_taken(old, evs) ==> r.is_ok() && new.full == filled(old.full, evs)
}
// `v.stream(stream)` for a value only known by its interface: the contract of `Value`.
#[verifier::external_body]
pub fn stream_any<'sval, V: Value + ?Sized, S: Stream<'sval> + ?Sized>(v: &'sval V, stream: &mut S) -> (r: Result)
    ensures told((*old(stream)).st(), (*final(stream)).st(), r, v.evs(), fails(v)),
{ unimplemented!() }

pub mod data {
use super::*;
broadcast use {lend_push, lend_lend, append_empty, append_assoc, lend_concat, canon_append, canon_one, canon_text, canon_lend, c_assoc};
//@fn sval | data::number::stream_number
//@sub impl fmt::Display => impl Printed
//@spec
    ensures
        (*final(stream)).st().takes == (*old(stream)).st().takes,
        forall|l: Seq<C>| r.is_ok() && #[trigger] ((*old(stream)).st().did)(l) ==> ((*final(stream)).st().did)(l + seq![C::TaggedBegin(Some(tags::NUMBER), None, None)] + number.printed() + seq![C::TaggedEnd(Some(tags::NUMBER), None, None)]),
//@end
//@fn sval | data::number::stream_i128
//@vis pub
//@spec
    requires !(i64::MIN <= v <= i64::MAX),
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::I128(v)),
//@end
//@fn sval | data::number::stream_u128
//@vis pub
//@spec
    requires !(i64::MIN <= v <= i64::MAX),
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::U128(v)),
//@end
}

pub mod default_stream {
use super::*;
broadcast use {lend_push, lend_lend, append_empty, append_assoc, lend_concat, canon_append, canon_one, canon_text, canon_lend, c_assoc, c_bytes_all};
//@fn sval | stream::default_stream::value
//@sub \bv\.stream\(stream\) => stream_any(v, stream)
//@spec
    ensures told((*old(stream)).st(), (*final(stream)).st(), r, v.evs(), fails(v)),
//@end
//@fn sval | stream::default_stream::text_fragment
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::TextFragment(fragment@, false)),
//@end
//@fn sval | stream::default_stream::binary_begin
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::BinaryBegin(num_bytes)),
//@end
//@fn sval | stream::default_stream::binary_fragment
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::BinaryFragment(fragment@, false)),
//@end
//@fn sval | stream::default_stream::binary_fragment_computed
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::BinaryFragment(fragment@, false)),
//@loop 0
    invariant
        (*stream).st().takes == (*old(stream)).st().takes,
        forall|l: Seq<C>| #[trigger] ((*old(stream)).st().did)(l) ==> ((*stream).st().did)(l + c_bytes(fragment@.take(it.index@))),
//@looptail 0
    proof {
        c_bytes_push(fragment@.take(it.index@), fragment@[it.index@]);
        assert(seq![C::SeqValueBegin, C::Int(fragment@[it.index@] as int), C::SeqValueEnd] =~= c1(Ev::SeqValueBegin) + c1(Ev::U8(fragment@[it.index@])) + c1(Ev::SeqValueEnd));
        assert(fragment@.take(it.index@ + 1) =~= fragment@.take(it.index@).push(fragment@[it.index@]));
    }
//@end
//@fn sval | stream::default_stream::binary_end
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::BinaryEnd),
//@end
//@fn sval | stream::default_stream::u8
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::U8(value)),
        ((*old(stream)).st().takes)(Ev::U16(value as u16)) ==> r.is_ok() && (*final(stream)).st().full == fill((*old(stream)).st().full, Ev::U8(value)),
//@end
//@fn sval | stream::default_stream::u16
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::U16(value)),
        ((*old(stream)).st().takes)(Ev::U32(value as u32)) ==> r.is_ok() && (*final(stream)).st().full == fill((*old(stream)).st().full, Ev::U16(value)),
//@end
//@fn sval | stream::default_stream::u32
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::U32(value)),
        ((*old(stream)).st().takes)(Ev::U64(value as u64)) ==> r.is_ok() && (*final(stream)).st().full == fill((*old(stream)).st().full, Ev::U32(value)),
//@end
//@fn sval | stream::default_stream::u64
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::U64(value)),
        ((*old(stream)).st().takes)(Ev::U128(value as u128)) ==> r.is_ok() && (*final(stream)).st().full == fill((*old(stream)).st().full, Ev::U64(value)),
//@end
//@fn sval | stream::default_stream::u128
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::U128(value)),
        value <= i64::MAX && ((*old(stream)).st().takes)(Ev::I64(value as i64)) ==> r.is_ok() && (*final(stream)).st().full == fill((*old(stream)).st().full, Ev::U128(value)),
//@end
//@fn sval | stream::default_stream::i8
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::I8(value)),
        ((*old(stream)).st().takes)(Ev::I16(value as i16)) ==> r.is_ok() && (*final(stream)).st().full == fill((*old(stream)).st().full, Ev::I8(value)),
//@end
//@fn sval | stream::default_stream::i16
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::I16(value)),
        ((*old(stream)).st().takes)(Ev::I32(value as i32)) ==> r.is_ok() && (*final(stream)).st().full == fill((*old(stream)).st().full, Ev::I16(value)),
//@end
//@fn sval | stream::default_stream::i32
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::I32(value)),
        ((*old(stream)).st().takes)(Ev::I64(value as i64)) ==> r.is_ok() && (*final(stream)).st().full == fill((*old(stream)).st().full, Ev::I32(value)),
//@end
//@fn sval | stream::default_stream::i128
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::I128(value)),
        i64::MIN <= value <= i64::MAX && ((*old(stream)).st().takes)(Ev::I64(value as i64)) ==> r.is_ok() && (*final(stream)).st().full == fill((*old(stream)).st().full, Ev::I128(value)),
//@end
//@fn sval | stream::default_stream::f32
//@sub \bvalue as f64\b => widen(value)
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::F32(value)),
        ((*old(stream)).st().takes)(Ev::F64(widened(value))) ==> r.is_ok() && (*final(stream)).st().full == fill((*old(stream)).st().full, Ev::F32(value)),
//@end
//@fn sval | stream::default_stream::map_begin
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::MapBegin(num_entries)),
//@end
//@fn sval | stream::default_stream::map_key_begin
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::MapKeyBegin),
//@head
    proof { assert(c1(Ev::MapKeyBegin) =~= c1(Ev::SeqValueBegin) + c1(Ev::TupleBegin(None, None, None, Some(2))) + c1(Ev::TupleValueBegin(None, arbitrary()))); }
//@end
//@fn sval | stream::default_stream::map_key_end
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::MapKeyEnd),
//@end
//@fn sval | stream::default_stream::map_value_begin
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::MapValueBegin),
//@end
//@fn sval | stream::default_stream::map_value_end
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::MapValueEnd),
//@head
    proof { assert(c1(Ev::MapValueEnd) =~= c1(Ev::TupleValueEnd(None, arbitrary())) + c1(Ev::TupleEnd(None, None, None)) + c1(Ev::SeqValueEnd)); }
//@end
//@fn sval | stream::default_stream::map_end
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::MapEnd),
//@end
//@fn sval | stream::default_stream::enum_begin
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::EnumBegin(ot(tag), ol(label), oi(index))),
        ((*old(stream)).st().takes)(Ev::TaggedBegin(ot(tag), ol(label), oi(index))) ==> r.is_ok() && (*final(stream)).st().full == fill((*old(stream)).st().full, Ev::EnumBegin(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | stream::default_stream::enum_end
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::EnumEnd(ot(tag), ol(label), oi(index))),
        ((*old(stream)).st().takes)(Ev::TaggedEnd(ot(tag), ol(label), oi(index))) ==> r.is_ok() && (*final(stream)).st().full == fill((*old(stream)).st().full, Ev::EnumEnd(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | stream::default_stream::tagged_begin
//@spec
    // dropping the tag is the documented degradation: the value inside is untouched
    ensures r.is_ok(), (*final(stream)).st() == (*old(stream)).st(),
//@end
//@fn sval | stream::default_stream::tagged_end
//@spec
    // dropping the tag is the documented degradation: the value inside is untouched
    ensures r.is_ok(), (*final(stream)).st() == (*old(stream)).st(),
//@end
//@fn sval | stream::default_stream::tag
//@as tag_
//@sub if let Some\(&([\w:]+)\)\s*=\s*(\w+) => if is_tag(\2, &\1)
//@sub \bref\s+(?=\w) =>
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::Tag(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | stream::default_stream::tag_hint
//@spec
    ensures r.is_ok(), (*final(stream)).st() == (*old(stream)).st(), meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::TagHint(*tag)),
//@end
//@fn sval | stream::default_stream::record_begin
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries)),
//@end
//@fn sval | stream::default_stream::record_value_begin
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::RecordValueBegin(ot(tag), label@)),
//@end
//@fn sval | stream::default_stream::record_value_end
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::RecordValueEnd(ot(tag), label@)),
//@end
//@fn sval | stream::default_stream::record_end
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::RecordEnd(ot(tag), ol(label), oi(index))),
//@head
    proof { assert(c1(Ev::RecordEnd(ot(tag), ol(label), oi(index))) =~= c1(Ev::MapEnd) + c1(Ev::TaggedEnd(ot(tag), ol(label), oi(index)))); }
//@end
//@fn sval | stream::default_stream::tuple_begin
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@head
    proof { assert(c1(Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries)) =~= c1(Ev::TaggedBegin(ot(tag), ol(label), oi(index))) + c1(Ev::SeqBegin(num_entries))); }
//@end
//@fn sval | stream::default_stream::tuple_value_begin
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::TupleValueBegin(ot(tag), index@)),
//@end
//@fn sval | stream::default_stream::tuple_value_end
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::TupleValueEnd(ot(tag), index@)),
//@end
//@fn sval | stream::default_stream::tuple_end
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::TupleEnd(ot(tag), ol(label), oi(index))),
//@head
    proof { assert(c1(Ev::TupleEnd(ot(tag), ol(label), oi(index))) =~= c1(Ev::SeqEnd) + c1(Ev::TaggedEnd(ot(tag), ol(label), oi(index)))); }
//@end
//@fn sval | stream::default_stream::record_tuple_begin
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::RecordTupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@end
//@fn sval | stream::default_stream::record_tuple_value_begin
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::RecordTupleValueBegin(ot(tag), label@, index@)),
//@end
//@fn sval | stream::default_stream::record_tuple_value_end
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::RecordTupleValueEnd(ot(tag), label@, index@)),
//@end
//@fn sval | stream::default_stream::record_tuple_end
//@spec
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::RecordTupleEnd(ot(tag), ol(label), oi(index))),
//@end
}


// ---------------------------------------------------------------- what a conversion may answer

pub open spec fn is_tag_c(c: C) -> bool { c is TaggedBegin || c is TaggedEnd }
// What may stand around the content: tags, and the brackets of text (1) or of binary (2).
pub open spec fn frame(c: C, k: int) -> bool {
    is_tag_c(c) || (k == 1 && (c is TextBegin || c is TextEnd)) || (k == 2 && (c is SeqBegin || c is SeqEnd))
}
pub open spec fn framed(l: Seq<C>, k: int) -> bool { forall|i: int| 0 <= i < l.len() ==> frame(#[trigger] l[i], k) }
pub open spec fn at(l: Seq<C>, s: Seq<C>, n: int, k: int) -> bool {
    &&& 0 <= n && n + s.len() <= l.len()
    &&& l.subrange(n, n + s.len()) == s
    &&& framed(l.skip(n + s.len()), k)
    &&& k > 0 ==> framed(l.take(n), k)
}
// The events end in `s`, but for what may stand around it.
pub open spec fn says(l: Seq<C>, s: Seq<C>, k: int) -> bool { exists|n: int| #[trigger] at(l, s, n, k) }
pub open spec fn holds(v: Option<Seq<C>>, l: Seq<C>, k: int) -> bool {
    match v { None => framed(l, k), Some(s) => says(l, s, k) }
}
pub open spec fn holds_one(v: Option<Seq<C>>, seen: bool, l: Seq<C>, k: int) -> bool {
    match v { None => seen || framed(l, k), Some(s) => seen && says(l, s, k) }
}
pub proof fn says_end(l: Seq<C>, s: Seq<C>, k: int)
    requires k > 0 ==> framed(l, k),
    ensures says(l + s, s, k),
{
    assert((l + s).subrange(l.len() as int, l.len() + s.len() as int) =~= s);
    assert((l + s).take(l.len() as int) =~= l);
    assert(at(l + s, s, l.len() as int, k));
}
pub proof fn says_more(l: Seq<C>, s: Seq<C>, t: Seq<C>, k: int)
    requires says(l, s, k), framed(t, k),
    ensures says(l + t, s, k),
{
    let n = choose|n: int| at(l, s, n, k);
    assert((l + t).subrange(n, n + s.len()) =~= s);
    assert((l + t).skip(n + s.len()) =~= l.skip(n + s.len()) + t);
    assert((l + t).take(n) =~= l.take(n));
    assert(at(l + t, s, n, k));
}
pub proof fn framed_more(l: Seq<C>, t: Seq<C>, k: int)
    requires framed(l, k), framed(t, k),
    ensures framed(l + t, k),
{ }
pub broadcast proof fn holds_end(l: Seq<C>, s: Seq<C>)
    ensures #[trigger] holds(Some(s), l + s, 0),
{ says_end(l, s, 0); }
pub broadcast proof fn holds_more(v: Option<Seq<C>>, l: Seq<C>, t: Seq<C>)
    requires holds(v, l, 0), framed(t, 0),
    ensures #[trigger] holds(v, l + t, 0),
{ if let Some(s) = v { says_more(l, s, t, 0); } }
pub broadcast proof fn one_end(l: Seq<C>, s: Seq<C>, k: int)
    requires holds_one(None, false, l, k), k > 0,
    ensures #[trigger] holds_one(Some(s), true, l + s, k),
{ says_end(l, s, k); }
pub broadcast proof fn one_more(v: Option<Seq<C>>, seen: bool, l: Seq<C>, t: Seq<C>, k: int)
    requires holds_one(v, seen, l, k), framed(t, k),
    ensures #[trigger] holds_one(v, seen, l + t, k),
{ if let Some(s) = v { says_more(l, s, t, k); } }
pub broadcast proof fn empty_left(l: Seq<C>)
    ensures #[trigger] (Seq::<C>::empty() + l) == l,
{ assert(Seq::<C>::empty() + l =~= l); }
pub proof fn some_says(v: Seq<Ev>, s: Seq<C>, k: int)
    requires says(canon(v), s, k),
    ensures says(canon(some_evs(v)), s, k),
{
    let a = Ev::TaggedBegin(Some(tags::RUST_OPTION_SOME), Some(label_v("Some"@)), Some(offset_v(1)));
    let b = Ev::TaggedEnd(Some(tags::RUST_OPTION_SOME), Some(label_v("Some"@)), Some(offset_v(1)));
    canon_append(seq![a] + v, seq![b]);
    canon_append(seq![a], v);
    canon_one(a);
    canon_one(b);
    let n = choose|n: int| at(canon(v), s, n, k);
    let l = canon(some_evs(v));
    assert(l =~= c1(a) + canon(v) + c1(b));
    assert(l.subrange(n + 1, n + 1 + s.len()) =~= s);
    assert(l.skip(n + 1 + s.len()) =~= canon(v).skip(n + s.len()) + c1(b));
    assert(l.take(n + 1) =~= c1(a) + canon(v).take(n));
    assert(at(l, s, n + 1, k));
}
pub proof fn filled_append(f: Option<C>, a: Seq<Ev>, b: Seq<Ev>)
    ensures filled(f, a + b) == filled(filled(f, a), b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        filled_append(f, a, b.drop_last());
    }
}
pub proof fn filled_one(f: Option<C>, e: Ev)
    ensures filled(f, seq![e]) == fill(f, e),
{ assert(seq![e].drop_last() =~= seq![]); reveal_with_fuel(filled, 2); }
pub proof fn some_filled(v: Seq<Ev>)
    ensures filled(None, some_evs(v)) == filled(None, v),
{
    let a = Ev::TaggedBegin(Some(tags::RUST_OPTION_SOME), Some(label_v("Some"@)), Some(offset_v(1)));
    let b = Ev::TaggedEnd(Some(tags::RUST_OPTION_SOME), Some(label_v("Some"@)), Some(offset_v(1)));
    filled_append(None, seq![a] + v, seq![b]);
    filled_append(None, seq![a], v);
    filled_one(None, a);
    filled_one(filled(None, v), b);
}
// An optional value fails where its content does (trusted: the events of `Some` are its content's).
#[verifier::external_body]
pub proof fn some_fails<T>(o: &Option<T>, x: &T)
    requires *o == Some(*x),
    ensures fails(o) == fails(x),
{ }

// a type whose whole content is one event
pub broadcast proof fn own_scalar(e: Ev)
    ensures
        says(#[trigger] canon(seq![e]), c1(e), 0),
        filled(None, seq![e]) == fill(None, e),
{
    canon_one(e);
    assert(c1(e).subrange(0, c1(e).len() as int) =~= c1(e));
    assert(at(c1(e), c1(e), 0, 0));
    filled_one(None, e);
}
// The content each target type stands for, and the events it is sure to come from.
pub open spec fn passes(e: Ev) -> bool {
    e is TaggedBegin || e is TaggedEnd || e is EnumBegin || e is EnumEnd || e is TagHint
}
pub open spec fn unsigned(e: Ev) -> bool { e is U8 || e is U16 || e is U32 || e is U64 || e is U128 }
pub open spec fn signed(e: Ev) -> bool { e is I8 || e is I16 || e is I32 || e is I64 || e is I128 }
pub open spec fn of_bool(e: Ev) -> bool { passes(e) || e is Bool }
pub open spec fn of_i128(e: Ev) -> bool { passes(e) || signed(e) }
pub open spec fn of_u128(e: Ev) -> bool { passes(e) || unsigned(e) }
pub open spec fn of_f32(e: Ev) -> bool { passes(e) || e is F32 }
pub open spec fn of_f64(e: Ev) -> bool { passes(e) || e is F32 || e is F64 }
// the content of an answer
pub open spec fn b_bool(v: bool) -> Seq<C> { seq![C::Bool(v)] }
pub open spec fn b_i128(v: i128) -> Seq<C> { c_int(v as int) }
pub open spec fn b_u128(v: u128) -> Seq<C> { c_int(v as int) }
pub open spec fn b_f32(v: f32) -> Seq<C> { seq![C::F64(widened(v))] }
pub open spec fn b_f64(v: f64) -> Seq<C> { seq![C::F64(v)] }
pub open spec fn ob_bool(r: Option<bool>) -> Option<Seq<C>> { match r { Some(v) => Some(b_bool(v)), None => None } }
pub open spec fn oc_bool(r: Option<bool>) -> Option<C> { match r { Some(v) => Some(C::Bool(v)), None => None } }
pub open spec fn all_bool(evs: Seq<Ev>) -> bool { forall|i: int| 0 <= i < evs.len() ==> of_bool(#[trigger] evs[i]) }
// sound: an answer is the content; complete: content of the right kind is answered
pub open spec fn ans_bool(evs: Seq<Ev>, fails: bool, r: Option<bool>) -> bool {
    &&& r matches Some(v) ==> says(canon(evs), b_bool(v), 0)
    &&& !fails && all_bool(evs) ==> oc_bool(r) == filled(None, evs)
}
pub open spec fn ob_i128(r: Option<i128>) -> Option<Seq<C>> { match r { Some(v) => Some(b_i128(v)), None => None } }
pub open spec fn oc_i128(r: Option<i128>) -> Option<C> { match r { Some(v) => Some(C::Int(v as int)), None => None } }
pub open spec fn all_i128(evs: Seq<Ev>) -> bool { forall|i: int| 0 <= i < evs.len() ==> of_i128(#[trigger] evs[i]) }
// sound: an answer is the content; complete: content of the right kind is answered
pub open spec fn ans_i128(evs: Seq<Ev>, fails: bool, r: Option<i128>) -> bool {
    &&& r matches Some(v) ==> says(canon(evs), b_i128(v), 0)
    &&& !fails && all_i128(evs) ==> oc_i128(r) == filled(None, evs)
}
pub open spec fn ob_u128(r: Option<u128>) -> Option<Seq<C>> { match r { Some(v) => Some(b_u128(v)), None => None } }
pub open spec fn oc_u128(r: Option<u128>) -> Option<C> { match r { Some(v) => Some(C::Int(v as int)), None => None } }
pub open spec fn all_u128(evs: Seq<Ev>) -> bool { forall|i: int| 0 <= i < evs.len() ==> of_u128(#[trigger] evs[i]) }
// sound: an answer is the content; complete: content of the right kind is answered
pub open spec fn ans_u128(evs: Seq<Ev>, fails: bool, r: Option<u128>) -> bool {
    &&& r matches Some(v) ==> says(canon(evs), b_u128(v), 0)
    &&& !fails && all_u128(evs) ==> oc_u128(r) == filled(None, evs)
}
pub open spec fn ob_f32(r: Option<f32>) -> Option<Seq<C>> { match r { Some(v) => Some(b_f32(v)), None => None } }
pub open spec fn oc_f32(r: Option<f32>) -> Option<C> { match r { Some(v) => Some(C::F64(widened(v))), None => None } }
pub open spec fn all_f32(evs: Seq<Ev>) -> bool { forall|i: int| 0 <= i < evs.len() ==> of_f32(#[trigger] evs[i]) }
// sound: an answer is the content; complete: content of the right kind is answered
pub open spec fn ans_f32(evs: Seq<Ev>, fails: bool, r: Option<f32>) -> bool {
    &&& r matches Some(v) ==> says(canon(evs), b_f32(v), 0)
    &&& !fails && all_f32(evs) ==> oc_f32(r) == filled(None, evs)
}
pub open spec fn ob_f64(r: Option<f64>) -> Option<Seq<C>> { match r { Some(v) => Some(b_f64(v)), None => None } }
pub open spec fn oc_f64(r: Option<f64>) -> Option<C> { match r { Some(v) => Some(C::F64(v)), None => None } }
pub open spec fn all_f64(evs: Seq<Ev>) -> bool { forall|i: int| 0 <= i < evs.len() ==> of_f64(#[trigger] evs[i]) }
// sound: an answer is the content; complete: content of the right kind is answered
pub open spec fn ans_f64(evs: Seq<Ev>, fails: bool, r: Option<f64>) -> bool {
    &&& r matches Some(v) ==> says(canon(evs), b_f64(v), 0)
    &&& !fails && all_f64(evs) ==> oc_f64(r) == filled(None, evs)
}
pub open spec fn ans_u8(evs: Seq<Ev>, fails: bool, r: Option<u8>) -> bool {
    &&& r matches Some(v) ==> says(canon(evs), c_int(v as int), 0)
    &&& !fails && all_u128(evs) ==> (filled(None, evs) matches Some(C::Int(v)) ==> (u8::MIN <= v <= u8::MAX ==> r == Some(v as u8)))
}
pub open spec fn ans_u16(evs: Seq<Ev>, fails: bool, r: Option<u16>) -> bool {
    &&& r matches Some(v) ==> says(canon(evs), c_int(v as int), 0)
    &&& !fails && all_u128(evs) ==> (filled(None, evs) matches Some(C::Int(v)) ==> (u16::MIN <= v <= u16::MAX ==> r == Some(v as u16)))
}
pub open spec fn ans_u32(evs: Seq<Ev>, fails: bool, r: Option<u32>) -> bool {
    &&& r matches Some(v) ==> says(canon(evs), c_int(v as int), 0)
    &&& !fails && all_u128(evs) ==> (filled(None, evs) matches Some(C::Int(v)) ==> (u32::MIN <= v <= u32::MAX ==> r == Some(v as u32)))
}
pub open spec fn ans_u64(evs: Seq<Ev>, fails: bool, r: Option<u64>) -> bool {
    &&& r matches Some(v) ==> says(canon(evs), c_int(v as int), 0)
    &&& !fails && all_u128(evs) ==> (filled(None, evs) matches Some(C::Int(v)) ==> (u64::MIN <= v <= u64::MAX ==> r == Some(v as u64)))
}
pub open spec fn ans_i8(evs: Seq<Ev>, fails: bool, r: Option<i8>) -> bool {
    &&& r matches Some(v) ==> says(canon(evs), c_int(v as int), 0)
    &&& !fails && all_i128(evs) ==> (filled(None, evs) matches Some(C::Int(v)) ==> (i8::MIN <= v <= i8::MAX ==> r == Some(v as i8)))
}
pub open spec fn ans_i16(evs: Seq<Ev>, fails: bool, r: Option<i16>) -> bool {
    &&& r matches Some(v) ==> says(canon(evs), c_int(v as int), 0)
    &&& !fails && all_i128(evs) ==> (filled(None, evs) matches Some(C::Int(v)) ==> (i16::MIN <= v <= i16::MAX ==> r == Some(v as i16)))
}
pub open spec fn ans_i32(evs: Seq<Ev>, fails: bool, r: Option<i32>) -> bool {
    &&& r matches Some(v) ==> says(canon(evs), c_int(v as int), 0)
    &&& !fails && all_i128(evs) ==> (filled(None, evs) matches Some(C::Int(v)) ==> (i32::MIN <= v <= i32::MAX ==> r == Some(v as i32)))
}
pub open spec fn ans_i64(evs: Seq<Ev>, fails: bool, r: Option<i64>) -> bool {
    &&& r matches Some(v) ==> says(canon(evs), c_int(v as int), 0)
    &&& !fails && all_i128(evs) ==> (filled(None, evs) matches Some(C::Int(v)) ==> (i64::MIN <= v <= i64::MAX ==> r == Some(v as i64)))
}
pub open spec fn ans_text(evs: Seq<Ev>, fails: bool, r: Option<&str>) -> bool {
    r matches Some(s) ==> says(canon(evs), seq![C::Text(s@)], 1)
}
pub open spec fn ans_binary(evs: Seq<Ev>, fails: bool, r: Option<&[u8]>) -> bool {
    r matches Some(s) ==> says(canon(evs), c_bytes(s@), 2)
}
pub trait Convert: Value {
    fn to_bool(&self) -> (r: Option<bool>)
        ensures ans_bool(self.evs(), fails(self), r);
    fn to_f32(&self) -> (r: Option<f32>)
        ensures ans_f32(self.evs(), fails(self), r);
    fn to_f64(&self) -> (r: Option<f64>)
        ensures ans_f64(self.evs(), fails(self), r);
    fn to_u8(&self) -> (r: Option<u8>)
        ensures ans_u8(self.evs(), fails(self), r);
    fn to_u16(&self) -> (r: Option<u16>)
        ensures ans_u16(self.evs(), fails(self), r);
    fn to_u32(&self) -> (r: Option<u32>)
        ensures ans_u32(self.evs(), fails(self), r);
    fn to_u64(&self) -> (r: Option<u64>)
        ensures ans_u64(self.evs(), fails(self), r);
    fn to_u128(&self) -> (r: Option<u128>)
        ensures ans_u128(self.evs(), fails(self), r);
    fn to_i8(&self) -> (r: Option<i8>)
        ensures ans_i8(self.evs(), fails(self), r);
    fn to_i16(&self) -> (r: Option<i16>)
        ensures ans_i16(self.evs(), fails(self), r);
    fn to_i32(&self) -> (r: Option<i32>)
        ensures ans_i32(self.evs(), fails(self), r);
    fn to_i64(&self) -> (r: Option<i64>)
        ensures ans_i64(self.evs(), fails(self), r);
    fn to_i128(&self) -> (r: Option<i128>)
        ensures ans_i128(self.evs(), fails(self), r);
    fn to_text(&self) -> (r: Option<&str>)
        ensures ans_text(self.evs(), fails(self), r);
    fn to_binary(&self) -> (r: Option<&[u8]>)
        ensures ans_binary(self.evs(), fails(self), r);
}

pub mod extract_bool {
use super::*;
broadcast use {holds_end, holds_more, one_end, one_more, empty_left};
pub mod crate_ { pub use super::super::*; }
pub struct Extract(pub Option<bool>);
pub open spec fn st_of(x: Extract) -> St {
    St { did: |l: Seq<C>| holds(ob_bool(x.0), l, 0), takes: |e: Ev| of_bool(e), full: oc_bool(x.0) }
}
//@impl sval | value::default_value::to_bool::{body}::{impl<'sval> Stream<'sval> for Extract}
//@sub \bcrate:: => crate_::
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1<'sval>(
//@sub default_stream::tag\b => default_stream::tag_
//@trait sval | stream::Stream
//@freefill Extract
//@ghost
    open spec fn st(&self) -> St { st_of(*self) }
//@freespec null
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Null),
//@freespec bool
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Bool(value)),
//@freespec text_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextBegin(num_bytes)),
//@freespec text_fragment
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextFragment(fragment@, true)),
//@freespec text_fragment_computed
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextFragment(fragment@, false)),
//@freespec text_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextEnd),
//@freespec binary_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryBegin(num_bytes)),
//@freespec binary_fragment
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryFragment(fragment@, true)),
//@freespec binary_fragment_computed
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryFragment(fragment@, false)),
//@freespec binary_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryEnd),
//@freespec u8
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U8(value)),
//@freespec u16
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U16(value)),
//@freespec u32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U32(value)),
//@freespec u64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U64(value)),
//@freespec u128
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U128(value)),
//@freespec i8
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I8(value)),
//@freespec i16
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I16(value)),
//@freespec i32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I32(value)),
//@freespec i64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I64(value)),
//@freespec i128
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I128(value)),
//@freespec f32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::F32(value)),
//@freespec f64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::F64(value)),
//@freespec map_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapBegin(num_entries)),
//@freespec map_key_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapKeyBegin),
//@freespec map_key_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapKeyEnd),
//@freespec map_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapValueBegin),
//@freespec map_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapValueEnd),
//@freespec map_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapEnd),
//@freespec seq_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqBegin(num_entries)),
//@freespec seq_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqValueBegin),
//@freespec seq_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqValueEnd),
//@freespec seq_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqEnd),
//@freespec enum_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::EnumBegin(ot(tag), ol(label), oi(index))),
//@freespec enum_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::EnumEnd(ot(tag), ol(label), oi(index))),
//@freespec tagged_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TaggedBegin(ot(tag), ol(label), oi(index))),
//@freespec tagged_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TaggedEnd(ot(tag), ol(label), oi(index))),
//@freespec tag
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Tag(ot(tag), ol(label), oi(index))),
//@freespec tag_hint
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TagHint(*tag)),
//@freespec record_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec record_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordValueBegin(ot(tag), label@)),
//@freespec record_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordValueEnd(ot(tag), label@)),
//@freespec record_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordEnd(ot(tag), ol(label), oi(index))),
//@freespec tuple_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec tuple_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleValueBegin(ot(tag), index@)),
//@freespec tuple_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleValueEnd(ot(tag), index@)),
//@freespec tuple_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleEnd(ot(tag), ol(label), oi(index))),
//@freespec record_tuple_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec record_tuple_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleValueBegin(ot(tag), label@, index@)),
//@freespec record_tuple_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleValueEnd(ot(tag), label@, index@)),
//@freespec record_tuple_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleEnd(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | value::default_value::to_bool
//@hoisted
//@sub impl Value => impl Convert
//@sub \bvalue\.stream\( => stream_any(value, 
//@spec
    ensures ans_bool(value.evs(), fails(value), r),
//@head
    proof { assert((st_of(Extract(None)).did)(Seq::<C>::empty())); }
//@end
}

pub mod extract_i128 {
use super::*;
broadcast use {holds_end, holds_more, one_end, one_more, empty_left};
pub mod crate_ { pub use super::super::*; }
pub struct Extract(pub Option<i128>);
pub open spec fn st_of(x: Extract) -> St {
    St { did: |l: Seq<C>| holds(ob_i128(x.0), l, 0), takes: |e: Ev| of_i128(e), full: oc_i128(x.0) }
}
//@impl sval | value::default_value::to_i128::{body}::{impl<'sval> Stream<'sval> for Extract}
//@sub \bcrate:: => crate_::
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1<'sval>(
//@sub default_stream::tag\b => default_stream::tag_
//@trait sval | stream::Stream
//@freefill Extract
//@ghost
    open spec fn st(&self) -> St { st_of(*self) }
//@freespec null
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Null),
//@freespec bool
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Bool(value)),
//@freespec text_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextBegin(num_bytes)),
//@freespec text_fragment
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextFragment(fragment@, true)),
//@freespec text_fragment_computed
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextFragment(fragment@, false)),
//@freespec text_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextEnd),
//@freespec binary_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryBegin(num_bytes)),
//@freespec binary_fragment
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryFragment(fragment@, true)),
//@freespec binary_fragment_computed
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryFragment(fragment@, false)),
//@freespec binary_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryEnd),
//@freespec u8
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U8(value)),
//@freespec u16
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U16(value)),
//@freespec u32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U32(value)),
//@freespec u64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U64(value)),
//@freespec u128
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U128(value)),
//@freespec i8
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I8(value)),
//@freespec i16
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I16(value)),
//@freespec i32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I32(value)),
//@freespec i64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I64(value)),
//@freespec i128
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I128(value)),
//@freespec f32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::F32(value)),
//@freespec f64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::F64(value)),
//@freespec map_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapBegin(num_entries)),
//@freespec map_key_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapKeyBegin),
//@freespec map_key_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapKeyEnd),
//@freespec map_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapValueBegin),
//@freespec map_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapValueEnd),
//@freespec map_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapEnd),
//@freespec seq_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqBegin(num_entries)),
//@freespec seq_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqValueBegin),
//@freespec seq_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqValueEnd),
//@freespec seq_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqEnd),
//@freespec enum_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::EnumBegin(ot(tag), ol(label), oi(index))),
//@freespec enum_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::EnumEnd(ot(tag), ol(label), oi(index))),
//@freespec tagged_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TaggedBegin(ot(tag), ol(label), oi(index))),
//@freespec tagged_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TaggedEnd(ot(tag), ol(label), oi(index))),
//@freespec tag
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Tag(ot(tag), ol(label), oi(index))),
//@freespec tag_hint
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TagHint(*tag)),
//@freespec record_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec record_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordValueBegin(ot(tag), label@)),
//@freespec record_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordValueEnd(ot(tag), label@)),
//@freespec record_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordEnd(ot(tag), ol(label), oi(index))),
//@freespec tuple_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec tuple_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleValueBegin(ot(tag), index@)),
//@freespec tuple_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleValueEnd(ot(tag), index@)),
//@freespec tuple_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleEnd(ot(tag), ol(label), oi(index))),
//@freespec record_tuple_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec record_tuple_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleValueBegin(ot(tag), label@, index@)),
//@freespec record_tuple_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleValueEnd(ot(tag), label@, index@)),
//@freespec record_tuple_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleEnd(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | value::default_value::to_i128
//@hoisted
//@sub impl Value => impl Convert
//@sub \bvalue\.stream\( => stream_any(value, 
//@spec
    ensures ans_i128(value.evs(), fails(value), r),
//@head
    proof { assert((st_of(Extract(None)).did)(Seq::<C>::empty())); }
//@end
}

pub mod extract_u128 {
use super::*;
broadcast use {holds_end, holds_more, one_end, one_more, empty_left};
pub mod crate_ { pub use super::super::*; }
pub struct Extract(pub Option<u128>);
pub open spec fn st_of(x: Extract) -> St {
    St { did: |l: Seq<C>| holds(ob_u128(x.0), l, 0), takes: |e: Ev| of_u128(e), full: oc_u128(x.0) }
}
//@impl sval | value::default_value::to_u128::{body}::{impl<'sval> Stream<'sval> for Extract}
//@sub \bcrate:: => crate_::
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1<'sval>(
//@sub default_stream::tag\b => default_stream::tag_
//@trait sval | stream::Stream
//@freefill Extract
//@ghost
    open spec fn st(&self) -> St { st_of(*self) }
//@freespec null
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Null),
//@freespec bool
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Bool(value)),
//@freespec text_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextBegin(num_bytes)),
//@freespec text_fragment
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextFragment(fragment@, true)),
//@freespec text_fragment_computed
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextFragment(fragment@, false)),
//@freespec text_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextEnd),
//@freespec binary_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryBegin(num_bytes)),
//@freespec binary_fragment
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryFragment(fragment@, true)),
//@freespec binary_fragment_computed
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryFragment(fragment@, false)),
//@freespec binary_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryEnd),
//@freespec u8
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U8(value)),
//@freespec u16
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U16(value)),
//@freespec u32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U32(value)),
//@freespec u64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U64(value)),
//@freespec u128
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U128(value)),
//@freespec i8
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I8(value)),
//@freespec i16
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I16(value)),
//@freespec i32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I32(value)),
//@freespec i64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I64(value)),
//@freespec i128
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I128(value)),
//@freespec f32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::F32(value)),
//@freespec f64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::F64(value)),
//@freespec map_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapBegin(num_entries)),
//@freespec map_key_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapKeyBegin),
//@freespec map_key_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapKeyEnd),
//@freespec map_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapValueBegin),
//@freespec map_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapValueEnd),
//@freespec map_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapEnd),
//@freespec seq_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqBegin(num_entries)),
//@freespec seq_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqValueBegin),
//@freespec seq_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqValueEnd),
//@freespec seq_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqEnd),
//@freespec enum_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::EnumBegin(ot(tag), ol(label), oi(index))),
//@freespec enum_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::EnumEnd(ot(tag), ol(label), oi(index))),
//@freespec tagged_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TaggedBegin(ot(tag), ol(label), oi(index))),
//@freespec tagged_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TaggedEnd(ot(tag), ol(label), oi(index))),
//@freespec tag
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Tag(ot(tag), ol(label), oi(index))),
//@freespec tag_hint
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TagHint(*tag)),
//@freespec record_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec record_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordValueBegin(ot(tag), label@)),
//@freespec record_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordValueEnd(ot(tag), label@)),
//@freespec record_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordEnd(ot(tag), ol(label), oi(index))),
//@freespec tuple_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec tuple_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleValueBegin(ot(tag), index@)),
//@freespec tuple_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleValueEnd(ot(tag), index@)),
//@freespec tuple_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleEnd(ot(tag), ol(label), oi(index))),
//@freespec record_tuple_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec record_tuple_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleValueBegin(ot(tag), label@, index@)),
//@freespec record_tuple_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleValueEnd(ot(tag), label@, index@)),
//@freespec record_tuple_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleEnd(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | value::default_value::to_u128
//@hoisted
//@sub impl Value => impl Convert
//@sub \bvalue\.stream\( => stream_any(value, 
//@spec
    ensures ans_u128(value.evs(), fails(value), r),
//@head
    proof { assert((st_of(Extract(None)).did)(Seq::<C>::empty())); }
//@end
}

pub mod extract_f32 {
use super::*;
broadcast use {holds_end, holds_more, one_end, one_more, empty_left};
pub mod crate_ { pub use super::super::*; }
pub struct Extract(pub Option<f32>);
pub open spec fn st_of(x: Extract) -> St {
    St { did: |l: Seq<C>| holds(ob_f32(x.0), l, 0), takes: |e: Ev| of_f32(e), full: oc_f32(x.0) }
}
//@impl sval | value::default_value::to_f32::{body}::{impl<'sval> Stream<'sval> for Extract}
//@sub \bcrate:: => crate_::
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1<'sval>(
//@sub default_stream::tag\b => default_stream::tag_
//@trait sval | stream::Stream
//@freefill Extract
//@ghost
    open spec fn st(&self) -> St { st_of(*self) }
//@freespec null
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Null),
//@freespec bool
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Bool(value)),
//@freespec text_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextBegin(num_bytes)),
//@freespec text_fragment
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextFragment(fragment@, true)),
//@freespec text_fragment_computed
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextFragment(fragment@, false)),
//@freespec text_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextEnd),
//@freespec binary_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryBegin(num_bytes)),
//@freespec binary_fragment
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryFragment(fragment@, true)),
//@freespec binary_fragment_computed
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryFragment(fragment@, false)),
//@freespec binary_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryEnd),
//@freespec u8
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U8(value)),
//@freespec u16
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U16(value)),
//@freespec u32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U32(value)),
//@freespec u64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U64(value)),
//@freespec u128
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U128(value)),
//@freespec i8
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I8(value)),
//@freespec i16
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I16(value)),
//@freespec i32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I32(value)),
//@freespec i64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I64(value)),
//@freespec i128
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I128(value)),
//@freespec f32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::F32(value)),
//@freespec f64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::F64(value)),
//@freespec map_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapBegin(num_entries)),
//@freespec map_key_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapKeyBegin),
//@freespec map_key_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapKeyEnd),
//@freespec map_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapValueBegin),
//@freespec map_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapValueEnd),
//@freespec map_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapEnd),
//@freespec seq_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqBegin(num_entries)),
//@freespec seq_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqValueBegin),
//@freespec seq_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqValueEnd),
//@freespec seq_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqEnd),
//@freespec enum_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::EnumBegin(ot(tag), ol(label), oi(index))),
//@freespec enum_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::EnumEnd(ot(tag), ol(label), oi(index))),
//@freespec tagged_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TaggedBegin(ot(tag), ol(label), oi(index))),
//@freespec tagged_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TaggedEnd(ot(tag), ol(label), oi(index))),
//@freespec tag
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Tag(ot(tag), ol(label), oi(index))),
//@freespec tag_hint
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TagHint(*tag)),
//@freespec record_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec record_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordValueBegin(ot(tag), label@)),
//@freespec record_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordValueEnd(ot(tag), label@)),
//@freespec record_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordEnd(ot(tag), ol(label), oi(index))),
//@freespec tuple_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec tuple_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleValueBegin(ot(tag), index@)),
//@freespec tuple_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleValueEnd(ot(tag), index@)),
//@freespec tuple_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleEnd(ot(tag), ol(label), oi(index))),
//@freespec record_tuple_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec record_tuple_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleValueBegin(ot(tag), label@, index@)),
//@freespec record_tuple_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleValueEnd(ot(tag), label@, index@)),
//@freespec record_tuple_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleEnd(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | value::default_value::to_f32
//@hoisted
//@sub impl Value => impl Convert
//@sub \bvalue\.stream\( => stream_any(value, 
//@spec
    ensures ans_f32(value.evs(), fails(value), r),
//@head
    proof { assert((st_of(Extract(None)).did)(Seq::<C>::empty())); }
//@end
}

pub mod extract_f64 {
use super::*;
broadcast use {holds_end, holds_more, one_end, one_more, empty_left};
pub mod crate_ { pub use super::super::*; }
pub struct Extract(pub Option<f64>);
pub open spec fn st_of(x: Extract) -> St {
    St { did: |l: Seq<C>| holds(ob_f64(x.0), l, 0), takes: |e: Ev| of_f64(e), full: oc_f64(x.0) }
}
//@impl sval | value::default_value::to_f64::{body}::{impl<'sval> Stream<'sval> for Extract}
//@sub \bcrate:: => crate_::
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1<'sval>(
//@sub default_stream::tag\b => default_stream::tag_
//@trait sval | stream::Stream
//@freefill Extract
//@ghost
    open spec fn st(&self) -> St { st_of(*self) }
//@freespec null
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Null),
//@freespec bool
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Bool(value)),
//@freespec text_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextBegin(num_bytes)),
//@freespec text_fragment
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextFragment(fragment@, true)),
//@freespec text_fragment_computed
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextFragment(fragment@, false)),
//@freespec text_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextEnd),
//@freespec binary_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryBegin(num_bytes)),
//@freespec binary_fragment
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryFragment(fragment@, true)),
//@freespec binary_fragment_computed
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryFragment(fragment@, false)),
//@freespec binary_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryEnd),
//@freespec u8
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U8(value)),
//@freespec u16
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U16(value)),
//@freespec u32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U32(value)),
//@freespec u64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U64(value)),
//@freespec u128
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U128(value)),
//@freespec i8
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I8(value)),
//@freespec i16
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I16(value)),
//@freespec i32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I32(value)),
//@freespec i64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I64(value)),
//@freespec i128
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I128(value)),
//@freespec f32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::F32(value)),
//@freespec f64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::F64(value)),
//@freespec map_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapBegin(num_entries)),
//@freespec map_key_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapKeyBegin),
//@freespec map_key_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapKeyEnd),
//@freespec map_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapValueBegin),
//@freespec map_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapValueEnd),
//@freespec map_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapEnd),
//@freespec seq_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqBegin(num_entries)),
//@freespec seq_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqValueBegin),
//@freespec seq_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqValueEnd),
//@freespec seq_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqEnd),
//@freespec enum_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::EnumBegin(ot(tag), ol(label), oi(index))),
//@freespec enum_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::EnumEnd(ot(tag), ol(label), oi(index))),
//@freespec tagged_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TaggedBegin(ot(tag), ol(label), oi(index))),
//@freespec tagged_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TaggedEnd(ot(tag), ol(label), oi(index))),
//@freespec tag
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Tag(ot(tag), ol(label), oi(index))),
//@freespec tag_hint
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TagHint(*tag)),
//@freespec record_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec record_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordValueBegin(ot(tag), label@)),
//@freespec record_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordValueEnd(ot(tag), label@)),
//@freespec record_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordEnd(ot(tag), ol(label), oi(index))),
//@freespec tuple_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec tuple_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleValueBegin(ot(tag), index@)),
//@freespec tuple_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleValueEnd(ot(tag), index@)),
//@freespec tuple_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleEnd(ot(tag), ol(label), oi(index))),
//@freespec record_tuple_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec record_tuple_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleValueBegin(ot(tag), label@, index@)),
//@freespec record_tuple_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleValueEnd(ot(tag), label@, index@)),
//@freespec record_tuple_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleEnd(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | value::default_value::to_f64
//@hoisted
//@sub impl Value => impl Convert
//@sub \bvalue\.stream\( => stream_any(value, 
//@spec
    ensures ans_f64(value.evs(), fails(value), r),
//@head
    proof { assert((st_of(Extract(None)).did)(Seq::<C>::empty())); }
//@end
}

pub mod extract_text {
use super::*;
broadcast use {holds_end, holds_more, one_end, one_more, empty_left};
pub mod crate_ { pub use super::super::*; }
pub open spec fn ob(r: Option<&str>) -> Option<Seq<C>> { match r { Some(v) => Some(seq![C::Text(v@)]), None => None } }
pub struct Extract<'sval> { pub extracted: Option<&'sval str>, pub seen_fragment: bool }
pub open spec fn st_of(x: Extract) -> St {
    St { did: |l: Seq<C>| holds_one(ob(x.extracted), x.seen_fragment, l, 1), takes: |e: Ev| false, full: None }
}
//@impl sval | value::default_value::to_text::{body}::{impl<'sval> Stream<'sval> for Extract<'sval>}
//@sub \bcrate:: => crate_::
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1<'sval>(
//@sub default_stream::tag\b => default_stream::tag_
//@trait sval | stream::Stream
//@freefill Extract<'sval>
//@ghost
    open spec fn st(&self) -> St { st_of(*self) }
//@freespec null
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Null),
//@freespec bool
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Bool(value)),
//@freespec text_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextBegin(num_bytes)),
//@freespec text_fragment
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextFragment(fragment@, true)),
//@freespec text_fragment_computed
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextFragment(fragment@, false)),
//@freespec text_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextEnd),
//@freespec binary_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryBegin(num_bytes)),
//@freespec binary_fragment
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryFragment(fragment@, true)),
//@freespec binary_fragment_computed
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryFragment(fragment@, false)),
//@freespec binary_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryEnd),
//@freespec u8
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U8(value)),
//@freespec u16
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U16(value)),
//@freespec u32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U32(value)),
//@freespec u64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U64(value)),
//@freespec u128
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U128(value)),
//@freespec i8
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I8(value)),
//@freespec i16
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I16(value)),
//@freespec i32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I32(value)),
//@freespec i64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I64(value)),
//@freespec i128
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I128(value)),
//@freespec f32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::F32(value)),
//@freespec f64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::F64(value)),
//@freespec map_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapBegin(num_entries)),
//@freespec map_key_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapKeyBegin),
//@freespec map_key_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapKeyEnd),
//@freespec map_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapValueBegin),
//@freespec map_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapValueEnd),
//@freespec map_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapEnd),
//@freespec seq_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqBegin(num_entries)),
//@freespec seq_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqValueBegin),
//@freespec seq_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqValueEnd),
//@freespec seq_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqEnd),
//@freespec enum_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::EnumBegin(ot(tag), ol(label), oi(index))),
//@freespec enum_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::EnumEnd(ot(tag), ol(label), oi(index))),
//@freespec tagged_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TaggedBegin(ot(tag), ol(label), oi(index))),
//@freespec tagged_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TaggedEnd(ot(tag), ol(label), oi(index))),
//@freespec tag
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Tag(ot(tag), ol(label), oi(index))),
//@freespec tag_hint
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TagHint(*tag)),
//@freespec record_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec record_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordValueBegin(ot(tag), label@)),
//@freespec record_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordValueEnd(ot(tag), label@)),
//@freespec record_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordEnd(ot(tag), ol(label), oi(index))),
//@freespec tuple_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec tuple_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleValueBegin(ot(tag), index@)),
//@freespec tuple_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleValueEnd(ot(tag), index@)),
//@freespec tuple_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleEnd(ot(tag), ol(label), oi(index))),
//@freespec record_tuple_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec record_tuple_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleValueBegin(ot(tag), label@, index@)),
//@freespec record_tuple_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleValueEnd(ot(tag), label@, index@)),
//@freespec record_tuple_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleEnd(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | value::default_value::to_text
//@hoisted
//@sub impl Value => impl Convert
//@sub \bvalue\.stream\( => stream_any(value, 
//@spec
    ensures ans_text(value.evs(), fails(value), r),
//@head
    proof { assert((st_of(Extract { extracted: None, seen_fragment: false }).did)(Seq::<C>::empty())); }
//@end
}

pub mod extract_binary {
use super::*;
broadcast use {holds_end, holds_more, one_end, one_more, empty_left};
pub mod crate_ { pub use super::super::*; }
pub open spec fn ob(r: Option<&[u8]>) -> Option<Seq<C>> { match r { Some(v) => Some(c_bytes(v@)), None => None } }
pub struct Extract<'sval> { pub extracted: Option<&'sval [u8]>, pub seen_fragment: bool }
pub open spec fn st_of(x: Extract) -> St {
    St { did: |l: Seq<C>| holds_one(ob(x.extracted), x.seen_fragment, l, 2), takes: |e: Ev| false, full: None }
}
//@impl sval | value::default_value::to_binary::{body}::{impl<'sval> Stream<'sval> for Extract<'sval>}
//@sub \bcrate:: => crate_::
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1<'sval>(
//@sub default_stream::tag\b => default_stream::tag_
//@trait sval | stream::Stream
//@freefill Extract<'sval>
//@ghost
    open spec fn st(&self) -> St { st_of(*self) }
//@freespec null
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Null),
//@freespec bool
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Bool(value)),
//@freespec text_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextBegin(num_bytes)),
//@freespec text_fragment
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextFragment(fragment@, true)),
//@freespec text_fragment_computed
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextFragment(fragment@, false)),
//@freespec text_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TextEnd),
//@freespec binary_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryBegin(num_bytes)),
//@freespec binary_fragment
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryFragment(fragment@, true)),
//@freespec binary_fragment_computed
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryFragment(fragment@, false)),
//@freespec binary_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::BinaryEnd),
//@freespec u8
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U8(value)),
//@freespec u16
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U16(value)),
//@freespec u32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U32(value)),
//@freespec u64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U64(value)),
//@freespec u128
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::U128(value)),
//@freespec i8
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I8(value)),
//@freespec i16
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I16(value)),
//@freespec i32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I32(value)),
//@freespec i64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I64(value)),
//@freespec i128
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::I128(value)),
//@freespec f32
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::F32(value)),
//@freespec f64
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::F64(value)),
//@freespec map_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapBegin(num_entries)),
//@freespec map_key_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapKeyBegin),
//@freespec map_key_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapKeyEnd),
//@freespec map_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapValueBegin),
//@freespec map_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapValueEnd),
//@freespec map_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::MapEnd),
//@freespec seq_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqBegin(num_entries)),
//@freespec seq_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqValueBegin),
//@freespec seq_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqValueEnd),
//@freespec seq_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::SeqEnd),
//@freespec enum_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::EnumBegin(ot(tag), ol(label), oi(index))),
//@freespec enum_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::EnumEnd(ot(tag), ol(label), oi(index))),
//@freespec tagged_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TaggedBegin(ot(tag), ol(label), oi(index))),
//@freespec tagged_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TaggedEnd(ot(tag), ol(label), oi(index))),
//@freespec tag
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::Tag(ot(tag), ol(label), oi(index))),
//@freespec tag_hint
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TagHint(*tag)),
//@freespec record_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec record_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordValueBegin(ot(tag), label@)),
//@freespec record_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordValueEnd(ot(tag), label@)),
//@freespec record_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordEnd(ot(tag), ol(label), oi(index))),
//@freespec tuple_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec tuple_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleValueBegin(ot(tag), index@)),
//@freespec tuple_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleValueEnd(ot(tag), index@)),
//@freespec tuple_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::TupleEnd(ot(tag), ol(label), oi(index))),
//@freespec record_tuple_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec record_tuple_value_begin
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleValueBegin(ot(tag), label@, index@)),
//@freespec record_tuple_value_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleValueEnd(ot(tag), label@, index@)),
//@freespec record_tuple_end
    ensures took((*old(self_)).st(), (*final(self_)).st(), r, Ev::RecordTupleEnd(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | value::default_value::to_binary
//@hoisted
//@sub impl Value => impl Convert
//@sub \bvalue\.stream\( => stream_any(value, 
//@spec
    ensures ans_binary(value.evs(), fails(value), r),
//@head
    proof { assert((st_of(Extract { extracted: None, seen_fragment: false }).did)(Seq::<C>::empty())); }
//@end
}

pub mod default_value {
use super::*;
//@fn sval | value::default_value::to_u8
//@sub impl Value => impl Convert
//@sub \|value\|\s*value\.try_into\(\)\.ok\(\) => |value: u128| -> (q: Option<u8>) ensures q == (if u8::MIN <= value <= u8::MAX { Some(value as u8) } else { None }) { value.try_into().ok() }
//@spec
    ensures ans_u8(value.evs(), fails(value), r),
//@end
//@fn sval | value::default_value::to_u16
//@sub impl Value => impl Convert
//@sub \|value\|\s*value\.try_into\(\)\.ok\(\) => |value: u128| -> (q: Option<u16>) ensures q == (if u16::MIN <= value <= u16::MAX { Some(value as u16) } else { None }) { value.try_into().ok() }
//@spec
    ensures ans_u16(value.evs(), fails(value), r),
//@end
//@fn sval | value::default_value::to_u32
//@sub impl Value => impl Convert
//@sub \|value\|\s*value\.try_into\(\)\.ok\(\) => |value: u128| -> (q: Option<u32>) ensures q == (if u32::MIN <= value <= u32::MAX { Some(value as u32) } else { None }) { value.try_into().ok() }
//@spec
    ensures ans_u32(value.evs(), fails(value), r),
//@end
//@fn sval | value::default_value::to_u64
//@sub impl Value => impl Convert
//@sub \|value\|\s*value\.try_into\(\)\.ok\(\) => |value: u128| -> (q: Option<u64>) ensures q == (if u64::MIN <= value <= u64::MAX { Some(value as u64) } else { None }) { value.try_into().ok() }
//@spec
    ensures ans_u64(value.evs(), fails(value), r),
//@end
//@fn sval | value::default_value::to_i8
//@sub impl Value => impl Convert
//@sub \|value\|\s*value\.try_into\(\)\.ok\(\) => |value: i128| -> (q: Option<i8>) ensures q == (if i8::MIN <= value <= i8::MAX { Some(value as i8) } else { None }) { value.try_into().ok() }
//@spec
    ensures ans_i8(value.evs(), fails(value), r),
//@end
//@fn sval | value::default_value::to_i16
//@sub impl Value => impl Convert
//@sub \|value\|\s*value\.try_into\(\)\.ok\(\) => |value: i128| -> (q: Option<i16>) ensures q == (if i16::MIN <= value <= i16::MAX { Some(value as i16) } else { None }) { value.try_into().ok() }
//@spec
    ensures ans_i16(value.evs(), fails(value), r),
//@end
//@fn sval | value::default_value::to_i32
//@sub impl Value => impl Convert
//@sub \|value\|\s*value\.try_into\(\)\.ok\(\) => |value: i128| -> (q: Option<i32>) ensures q == (if i32::MIN <= value <= i32::MAX { Some(value as i32) } else { None }) { value.try_into().ok() }
//@spec
    ensures ans_i32(value.evs(), fails(value), r),
//@end
//@fn sval | value::default_value::to_i64
//@sub impl Value => impl Convert
//@sub \|value\|\s*value\.try_into\(\)\.ok\(\) => |value: i128| -> (q: Option<i64>) ensures q == (if i64::MIN <= value <= i64::MAX { Some(value as i64) } else { None }) { value.try_into().ok() }
//@spec
    ensures ans_i64(value.evs(), fails(value), r),
//@end
pub use super::extract_bool::to_bool;
pub use super::extract_i128::to_i128;
pub use super::extract_u128::to_u128;
pub use super::extract_f32::to_f32;
pub use super::extract_f64::to_f64;
pub use super::extract_text::to_text;
pub use super::extract_binary::to_binary;
}

pub mod types {
use super::*;
pub mod of_bool { use super::*; broadcast use {own_scalar, canon_one};
//@impl sval | data::{impl Value for bool}
//@header impl Convert for bool
//@skip stream, tag
//@trait sval | value::Value
//@freefill bool
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1(
//@freespec to_bool
    ensures ans_bool(self_.evs(), fails(self_), r),
//@freespec to_f32
    ensures ans_f32(self_.evs(), fails(self_), r),
//@freespec to_f64
    ensures ans_f64(self_.evs(), fails(self_), r),
//@freespec to_u8
    ensures ans_u8(self_.evs(), fails(self_), r),
//@freespec to_u16
    ensures ans_u16(self_.evs(), fails(self_), r),
//@freespec to_u32
    ensures ans_u32(self_.evs(), fails(self_), r),
//@freespec to_u64
    ensures ans_u64(self_.evs(), fails(self_), r),
//@freespec to_u128
    ensures ans_u128(self_.evs(), fails(self_), r),
//@freespec to_i8
    ensures ans_i8(self_.evs(), fails(self_), r),
//@freespec to_i16
    ensures ans_i16(self_.evs(), fails(self_), r),
//@freespec to_i32
    ensures ans_i32(self_.evs(), fails(self_), r),
//@freespec to_i64
    ensures ans_i64(self_.evs(), fails(self_), r),
//@freespec to_i128
    ensures ans_i128(self_.evs(), fails(self_), r),
//@freespec to_text
    ensures ans_text(self_.evs(), fails(self_), r),
//@freespec to_binary
    ensures ans_binary(self_.evs(), fails(self_), r),
//@end
}
pub mod of_f32 { use super::*; broadcast use {own_scalar, canon_one};
//@impl sval | data::number::{impl Value for f32}
//@header impl Convert for f32
//@skip stream, tag
//@trait sval | value::Value
//@freefill f32
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1(
//@freespec to_bool
    ensures ans_bool(self_.evs(), fails(self_), r),
//@freespec to_f32
    ensures ans_f32(self_.evs(), fails(self_), r),
//@freespec to_f64
    ensures ans_f64(self_.evs(), fails(self_), r),
//@freespec to_u8
    ensures ans_u8(self_.evs(), fails(self_), r),
//@freespec to_u16
    ensures ans_u16(self_.evs(), fails(self_), r),
//@freespec to_u32
    ensures ans_u32(self_.evs(), fails(self_), r),
//@freespec to_u64
    ensures ans_u64(self_.evs(), fails(self_), r),
//@freespec to_u128
    ensures ans_u128(self_.evs(), fails(self_), r),
//@freespec to_i8
    ensures ans_i8(self_.evs(), fails(self_), r),
//@freespec to_i16
    ensures ans_i16(self_.evs(), fails(self_), r),
//@freespec to_i32
    ensures ans_i32(self_.evs(), fails(self_), r),
//@freespec to_i64
    ensures ans_i64(self_.evs(), fails(self_), r),
//@freespec to_i128
    ensures ans_i128(self_.evs(), fails(self_), r),
//@freespec to_text
    ensures ans_text(self_.evs(), fails(self_), r),
//@freespec to_binary
    ensures ans_binary(self_.evs(), fails(self_), r),
//@end
}
pub mod of_f64 { use super::*; broadcast use {own_scalar, canon_one};
//@impl sval | data::number::{impl Value for f64}
//@header impl Convert for f64
//@skip stream, tag
//@trait sval | value::Value
//@freefill f64
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1(
//@freespec to_bool
    ensures ans_bool(self_.evs(), fails(self_), r),
//@freespec to_f32
    ensures ans_f32(self_.evs(), fails(self_), r),
//@freespec to_f64
    ensures ans_f64(self_.evs(), fails(self_), r),
//@freespec to_u8
    ensures ans_u8(self_.evs(), fails(self_), r),
//@freespec to_u16
    ensures ans_u16(self_.evs(), fails(self_), r),
//@freespec to_u32
    ensures ans_u32(self_.evs(), fails(self_), r),
//@freespec to_u64
    ensures ans_u64(self_.evs(), fails(self_), r),
//@freespec to_u128
    ensures ans_u128(self_.evs(), fails(self_), r),
//@freespec to_i8
    ensures ans_i8(self_.evs(), fails(self_), r),
//@freespec to_i16
    ensures ans_i16(self_.evs(), fails(self_), r),
//@freespec to_i32
    ensures ans_i32(self_.evs(), fails(self_), r),
//@freespec to_i64
    ensures ans_i64(self_.evs(), fails(self_), r),
//@freespec to_i128
    ensures ans_i128(self_.evs(), fails(self_), r),
//@freespec to_text
    ensures ans_text(self_.evs(), fails(self_), r),
//@freespec to_binary
    ensures ans_binary(self_.evs(), fails(self_), r),
//@end
}
pub mod of_u8 { use super::*; broadcast use {own_scalar, canon_one};
//@impl sval | data::number::{impl Value for u8}
//@header impl Convert for u8
//@skip stream, tag
//@trait sval | value::Value
//@freefill u8
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1(
//@freespec to_bool
    ensures ans_bool(self_.evs(), fails(self_), r),
//@freespec to_f32
    ensures ans_f32(self_.evs(), fails(self_), r),
//@freespec to_f64
    ensures ans_f64(self_.evs(), fails(self_), r),
//@freespec to_u8
    ensures ans_u8(self_.evs(), fails(self_), r),
//@freespec to_u16
    ensures ans_u16(self_.evs(), fails(self_), r),
//@freespec to_u32
    ensures ans_u32(self_.evs(), fails(self_), r),
//@freespec to_u64
    ensures ans_u64(self_.evs(), fails(self_), r),
//@freespec to_u128
    ensures ans_u128(self_.evs(), fails(self_), r),
//@freespec to_i8
    ensures ans_i8(self_.evs(), fails(self_), r),
//@freespec to_i16
    ensures ans_i16(self_.evs(), fails(self_), r),
//@freespec to_i32
    ensures ans_i32(self_.evs(), fails(self_), r),
//@freespec to_i64
    ensures ans_i64(self_.evs(), fails(self_), r),
//@freespec to_i128
    ensures ans_i128(self_.evs(), fails(self_), r),
//@freespec to_text
    ensures ans_text(self_.evs(), fails(self_), r),
//@freespec to_binary
    ensures ans_binary(self_.evs(), fails(self_), r),
//@end
}
pub mod of_u16 { use super::*; broadcast use {own_scalar, canon_one};
//@impl sval | data::number::{impl Value for u16}
//@header impl Convert for u16
//@skip stream, tag
//@trait sval | value::Value
//@freefill u16
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1(
//@freespec to_bool
    ensures ans_bool(self_.evs(), fails(self_), r),
//@freespec to_f32
    ensures ans_f32(self_.evs(), fails(self_), r),
//@freespec to_f64
    ensures ans_f64(self_.evs(), fails(self_), r),
//@freespec to_u8
    ensures ans_u8(self_.evs(), fails(self_), r),
//@freespec to_u16
    ensures ans_u16(self_.evs(), fails(self_), r),
//@freespec to_u32
    ensures ans_u32(self_.evs(), fails(self_), r),
//@freespec to_u64
    ensures ans_u64(self_.evs(), fails(self_), r),
//@freespec to_u128
    ensures ans_u128(self_.evs(), fails(self_), r),
//@freespec to_i8
    ensures ans_i8(self_.evs(), fails(self_), r),
//@freespec to_i16
    ensures ans_i16(self_.evs(), fails(self_), r),
//@freespec to_i32
    ensures ans_i32(self_.evs(), fails(self_), r),
//@freespec to_i64
    ensures ans_i64(self_.evs(), fails(self_), r),
//@freespec to_i128
    ensures ans_i128(self_.evs(), fails(self_), r),
//@freespec to_text
    ensures ans_text(self_.evs(), fails(self_), r),
//@freespec to_binary
    ensures ans_binary(self_.evs(), fails(self_), r),
//@end
}
pub mod of_u32 { use super::*; broadcast use {own_scalar, canon_one};
//@impl sval | data::number::{impl Value for u32}
//@header impl Convert for u32
//@skip stream, tag
//@trait sval | value::Value
//@freefill u32
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1(
//@freespec to_bool
    ensures ans_bool(self_.evs(), fails(self_), r),
//@freespec to_f32
    ensures ans_f32(self_.evs(), fails(self_), r),
//@freespec to_f64
    ensures ans_f64(self_.evs(), fails(self_), r),
//@freespec to_u8
    ensures ans_u8(self_.evs(), fails(self_), r),
//@freespec to_u16
    ensures ans_u16(self_.evs(), fails(self_), r),
//@freespec to_u32
    ensures ans_u32(self_.evs(), fails(self_), r),
//@freespec to_u64
    ensures ans_u64(self_.evs(), fails(self_), r),
//@freespec to_u128
    ensures ans_u128(self_.evs(), fails(self_), r),
//@freespec to_i8
    ensures ans_i8(self_.evs(), fails(self_), r),
//@freespec to_i16
    ensures ans_i16(self_.evs(), fails(self_), r),
//@freespec to_i32
    ensures ans_i32(self_.evs(), fails(self_), r),
//@freespec to_i64
    ensures ans_i64(self_.evs(), fails(self_), r),
//@freespec to_i128
    ensures ans_i128(self_.evs(), fails(self_), r),
//@freespec to_text
    ensures ans_text(self_.evs(), fails(self_), r),
//@freespec to_binary
    ensures ans_binary(self_.evs(), fails(self_), r),
//@end
}
pub mod of_u64 { use super::*; broadcast use {own_scalar, canon_one};
//@impl sval | data::number::{impl Value for u64}
//@header impl Convert for u64
//@skip stream, tag
//@trait sval | value::Value
//@freefill u64
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1(
//@freespec to_bool
    ensures ans_bool(self_.evs(), fails(self_), r),
//@freespec to_f32
    ensures ans_f32(self_.evs(), fails(self_), r),
//@freespec to_f64
    ensures ans_f64(self_.evs(), fails(self_), r),
//@freespec to_u8
    ensures ans_u8(self_.evs(), fails(self_), r),
//@freespec to_u16
    ensures ans_u16(self_.evs(), fails(self_), r),
//@freespec to_u32
    ensures ans_u32(self_.evs(), fails(self_), r),
//@freespec to_u64
    ensures ans_u64(self_.evs(), fails(self_), r),
//@freespec to_u128
    ensures ans_u128(self_.evs(), fails(self_), r),
//@freespec to_i8
    ensures ans_i8(self_.evs(), fails(self_), r),
//@freespec to_i16
    ensures ans_i16(self_.evs(), fails(self_), r),
//@freespec to_i32
    ensures ans_i32(self_.evs(), fails(self_), r),
//@freespec to_i64
    ensures ans_i64(self_.evs(), fails(self_), r),
//@freespec to_i128
    ensures ans_i128(self_.evs(), fails(self_), r),
//@freespec to_text
    ensures ans_text(self_.evs(), fails(self_), r),
//@freespec to_binary
    ensures ans_binary(self_.evs(), fails(self_), r),
//@end
}
pub mod of_u128 { use super::*; broadcast use {own_scalar, canon_one};
//@impl sval | data::number::{impl Value for u128}
//@header impl Convert for u128
//@skip stream, tag
//@trait sval | value::Value
//@freefill u128
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1(
//@freespec to_bool
    ensures ans_bool(self_.evs(), fails(self_), r),
//@freespec to_f32
    ensures ans_f32(self_.evs(), fails(self_), r),
//@freespec to_f64
    ensures ans_f64(self_.evs(), fails(self_), r),
//@freespec to_u8
    ensures ans_u8(self_.evs(), fails(self_), r),
//@freespec to_u16
    ensures ans_u16(self_.evs(), fails(self_), r),
//@freespec to_u32
    ensures ans_u32(self_.evs(), fails(self_), r),
//@freespec to_u64
    ensures ans_u64(self_.evs(), fails(self_), r),
//@freespec to_u128
    ensures ans_u128(self_.evs(), fails(self_), r),
//@freespec to_i8
    ensures ans_i8(self_.evs(), fails(self_), r),
//@freespec to_i16
    ensures ans_i16(self_.evs(), fails(self_), r),
//@freespec to_i32
    ensures ans_i32(self_.evs(), fails(self_), r),
//@freespec to_i64
    ensures ans_i64(self_.evs(), fails(self_), r),
//@freespec to_i128
    ensures ans_i128(self_.evs(), fails(self_), r),
//@freespec to_text
    ensures ans_text(self_.evs(), fails(self_), r),
//@freespec to_binary
    ensures ans_binary(self_.evs(), fails(self_), r),
//@end
}
pub mod of_i8 { use super::*; broadcast use {own_scalar, canon_one};
//@impl sval | data::number::{impl Value for i8}
//@header impl Convert for i8
//@skip stream, tag
//@trait sval | value::Value
//@freefill i8
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1(
//@freespec to_bool
    ensures ans_bool(self_.evs(), fails(self_), r),
//@freespec to_f32
    ensures ans_f32(self_.evs(), fails(self_), r),
//@freespec to_f64
    ensures ans_f64(self_.evs(), fails(self_), r),
//@freespec to_u8
    ensures ans_u8(self_.evs(), fails(self_), r),
//@freespec to_u16
    ensures ans_u16(self_.evs(), fails(self_), r),
//@freespec to_u32
    ensures ans_u32(self_.evs(), fails(self_), r),
//@freespec to_u64
    ensures ans_u64(self_.evs(), fails(self_), r),
//@freespec to_u128
    ensures ans_u128(self_.evs(), fails(self_), r),
//@freespec to_i8
    ensures ans_i8(self_.evs(), fails(self_), r),
//@freespec to_i16
    ensures ans_i16(self_.evs(), fails(self_), r),
//@freespec to_i32
    ensures ans_i32(self_.evs(), fails(self_), r),
//@freespec to_i64
    ensures ans_i64(self_.evs(), fails(self_), r),
//@freespec to_i128
    ensures ans_i128(self_.evs(), fails(self_), r),
//@freespec to_text
    ensures ans_text(self_.evs(), fails(self_), r),
//@freespec to_binary
    ensures ans_binary(self_.evs(), fails(self_), r),
//@end
}
pub mod of_i16 { use super::*; broadcast use {own_scalar, canon_one};
//@impl sval | data::number::{impl Value for i16}
//@header impl Convert for i16
//@skip stream, tag
//@trait sval | value::Value
//@freefill i16
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1(
//@freespec to_bool
    ensures ans_bool(self_.evs(), fails(self_), r),
//@freespec to_f32
    ensures ans_f32(self_.evs(), fails(self_), r),
//@freespec to_f64
    ensures ans_f64(self_.evs(), fails(self_), r),
//@freespec to_u8
    ensures ans_u8(self_.evs(), fails(self_), r),
//@freespec to_u16
    ensures ans_u16(self_.evs(), fails(self_), r),
//@freespec to_u32
    ensures ans_u32(self_.evs(), fails(self_), r),
//@freespec to_u64
    ensures ans_u64(self_.evs(), fails(self_), r),
//@freespec to_u128
    ensures ans_u128(self_.evs(), fails(self_), r),
//@freespec to_i8
    ensures ans_i8(self_.evs(), fails(self_), r),
//@freespec to_i16
    ensures ans_i16(self_.evs(), fails(self_), r),
//@freespec to_i32
    ensures ans_i32(self_.evs(), fails(self_), r),
//@freespec to_i64
    ensures ans_i64(self_.evs(), fails(self_), r),
//@freespec to_i128
    ensures ans_i128(self_.evs(), fails(self_), r),
//@freespec to_text
    ensures ans_text(self_.evs(), fails(self_), r),
//@freespec to_binary
    ensures ans_binary(self_.evs(), fails(self_), r),
//@end
}
pub mod of_i32 { use super::*; broadcast use {own_scalar, canon_one};
//@impl sval | data::number::{impl Value for i32}
//@header impl Convert for i32
//@skip stream, tag
//@trait sval | value::Value
//@freefill i32
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1(
//@freespec to_bool
    ensures ans_bool(self_.evs(), fails(self_), r),
//@freespec to_f32
    ensures ans_f32(self_.evs(), fails(self_), r),
//@freespec to_f64
    ensures ans_f64(self_.evs(), fails(self_), r),
//@freespec to_u8
    ensures ans_u8(self_.evs(), fails(self_), r),
//@freespec to_u16
    ensures ans_u16(self_.evs(), fails(self_), r),
//@freespec to_u32
    ensures ans_u32(self_.evs(), fails(self_), r),
//@freespec to_u64
    ensures ans_u64(self_.evs(), fails(self_), r),
//@freespec to_u128
    ensures ans_u128(self_.evs(), fails(self_), r),
//@freespec to_i8
    ensures ans_i8(self_.evs(), fails(self_), r),
//@freespec to_i16
    ensures ans_i16(self_.evs(), fails(self_), r),
//@freespec to_i32
    ensures ans_i32(self_.evs(), fails(self_), r),
//@freespec to_i64
    ensures ans_i64(self_.evs(), fails(self_), r),
//@freespec to_i128
    ensures ans_i128(self_.evs(), fails(self_), r),
//@freespec to_text
    ensures ans_text(self_.evs(), fails(self_), r),
//@freespec to_binary
    ensures ans_binary(self_.evs(), fails(self_), r),
//@end
}
pub mod of_i64 { use super::*; broadcast use {own_scalar, canon_one};
//@impl sval | data::number::{impl Value for i64}
//@header impl Convert for i64
//@skip stream, tag
//@trait sval | value::Value
//@freefill i64
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1(
//@freespec to_bool
    ensures ans_bool(self_.evs(), fails(self_), r),
//@freespec to_f32
    ensures ans_f32(self_.evs(), fails(self_), r),
//@freespec to_f64
    ensures ans_f64(self_.evs(), fails(self_), r),
//@freespec to_u8
    ensures ans_u8(self_.evs(), fails(self_), r),
//@freespec to_u16
    ensures ans_u16(self_.evs(), fails(self_), r),
//@freespec to_u32
    ensures ans_u32(self_.evs(), fails(self_), r),
//@freespec to_u64
    ensures ans_u64(self_.evs(), fails(self_), r),
//@freespec to_u128
    ensures ans_u128(self_.evs(), fails(self_), r),
//@freespec to_i8
    ensures ans_i8(self_.evs(), fails(self_), r),
//@freespec to_i16
    ensures ans_i16(self_.evs(), fails(self_), r),
//@freespec to_i32
    ensures ans_i32(self_.evs(), fails(self_), r),
//@freespec to_i64
    ensures ans_i64(self_.evs(), fails(self_), r),
//@freespec to_i128
    ensures ans_i128(self_.evs(), fails(self_), r),
//@freespec to_text
    ensures ans_text(self_.evs(), fails(self_), r),
//@freespec to_binary
    ensures ans_binary(self_.evs(), fails(self_), r),
//@end
}
pub mod of_i128 { use super::*; broadcast use {own_scalar, canon_one};
//@impl sval | data::number::{impl Value for i128}
//@header impl Convert for i128
//@skip stream, tag
//@trait sval | value::Value
//@freefill i128
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1(
//@freespec to_bool
    ensures ans_bool(self_.evs(), fails(self_), r),
//@freespec to_f32
    ensures ans_f32(self_.evs(), fails(self_), r),
//@freespec to_f64
    ensures ans_f64(self_.evs(), fails(self_), r),
//@freespec to_u8
    ensures ans_u8(self_.evs(), fails(self_), r),
//@freespec to_u16
    ensures ans_u16(self_.evs(), fails(self_), r),
//@freespec to_u32
    ensures ans_u32(self_.evs(), fails(self_), r),
//@freespec to_u64
    ensures ans_u64(self_.evs(), fails(self_), r),
//@freespec to_u128
    ensures ans_u128(self_.evs(), fails(self_), r),
//@freespec to_i8
    ensures ans_i8(self_.evs(), fails(self_), r),
//@freespec to_i16
    ensures ans_i16(self_.evs(), fails(self_), r),
//@freespec to_i32
    ensures ans_i32(self_.evs(), fails(self_), r),
//@freespec to_i64
    ensures ans_i64(self_.evs(), fails(self_), r),
//@freespec to_i128
    ensures ans_i128(self_.evs(), fails(self_), r),
//@freespec to_text
    ensures ans_text(self_.evs(), fails(self_), r),
//@freespec to_binary
    ensures ans_binary(self_.evs(), fails(self_), r),
//@end
}

pub mod of_text { use super::*;
pub broadcast proof fn own_text(s: Seq<char>)
    ensures #[trigger] says(c_text(s), seq![C::Text(s)], 1),
{
    let l = c_text(s);
    assert(l.subrange(1, 2) =~= seq![C::Text(s)]);
    assert(at(l, seq![C::Text(s)], 1, 1));
}
pub broadcast proof fn not_scalar(s: Seq<char>)
    ensures
        !all_bool(#[trigger] text_evs(s)), !all_i128(text_evs(s)), !all_u128(text_evs(s)), !all_f32(text_evs(s)), !all_f64(text_evs(s)),
{ assert(text_evs(s)[0] is TextBegin); }
#[verifier::external_body]
pub fn string_str(s: &String) -> (r: &str) ensures r@ == s@ { s }
pub mod of_str { use super::*; broadcast use {super::own_text, super::not_scalar, canon_text};
//@impl sval | data::text::{impl Value for str}
//@header impl Convert for str
//@skip stream, tag
//@trait sval | value::Value
//@freefill str
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1(
//@freespec to_bool
    ensures ans_bool(self_.evs(), fails(self_), r),
//@freespec to_f32
    ensures ans_f32(self_.evs(), fails(self_), r),
//@freespec to_f64
    ensures ans_f64(self_.evs(), fails(self_), r),
//@freespec to_u8
    ensures ans_u8(self_.evs(), fails(self_), r),
//@freespec to_u16
    ensures ans_u16(self_.evs(), fails(self_), r),
//@freespec to_u32
    ensures ans_u32(self_.evs(), fails(self_), r),
//@freespec to_u64
    ensures ans_u64(self_.evs(), fails(self_), r),
//@freespec to_u128
    ensures ans_u128(self_.evs(), fails(self_), r),
//@freespec to_i8
    ensures ans_i8(self_.evs(), fails(self_), r),
//@freespec to_i16
    ensures ans_i16(self_.evs(), fails(self_), r),
//@freespec to_i32
    ensures ans_i32(self_.evs(), fails(self_), r),
//@freespec to_i64
    ensures ans_i64(self_.evs(), fails(self_), r),
//@freespec to_i128
    ensures ans_i128(self_.evs(), fails(self_), r),
//@freespec to_text
    ensures ans_text(self_.evs(), fails(self_), r),
//@freespec to_binary
    ensures ans_binary(self_.evs(), fails(self_), r),
//@end
}
pub mod of_string { use super::*; broadcast use {super::own_text, super::not_scalar, canon_text};
//@impl sval | data::text::alloc_support::{impl Value for String}
//@header impl Convert for String
//@skip stream, tag
//@trait sval | value::Value
//@freefill String
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1(
//@sub Some\(self\)(?=\s*\}) => Some(string_str(self))
//@freespec to_bool
    ensures ans_bool(self_.evs(), fails(self_), r),
//@freespec to_f32
    ensures ans_f32(self_.evs(), fails(self_), r),
//@freespec to_f64
    ensures ans_f64(self_.evs(), fails(self_), r),
//@freespec to_u8
    ensures ans_u8(self_.evs(), fails(self_), r),
//@freespec to_u16
    ensures ans_u16(self_.evs(), fails(self_), r),
//@freespec to_u32
    ensures ans_u32(self_.evs(), fails(self_), r),
//@freespec to_u64
    ensures ans_u64(self_.evs(), fails(self_), r),
//@freespec to_u128
    ensures ans_u128(self_.evs(), fails(self_), r),
//@freespec to_i8
    ensures ans_i8(self_.evs(), fails(self_), r),
//@freespec to_i16
    ensures ans_i16(self_.evs(), fails(self_), r),
//@freespec to_i32
    ensures ans_i32(self_.evs(), fails(self_), r),
//@freespec to_i64
    ensures ans_i64(self_.evs(), fails(self_), r),
//@freespec to_i128
    ensures ans_i128(self_.evs(), fails(self_), r),
//@freespec to_text
    ensures ans_text(self_.evs(), fails(self_), r),
//@freespec to_binary
    ensures ans_binary(self_.evs(), fails(self_), r),
//@end
}
}

pub mod of_binary { use super::*;
pub broadcast proof fn own_binary(b: Seq<u8>)
    ensures says(canon(#[trigger] binary_evs(b)), c_bytes(b), 2), says(canon(fixed(binary_evs(b))), c_bytes(b), 2),
{
    let begin = Ev::BinaryBegin(Some(b.len() as usize));
    let s = c_bytes(b);
    let e = binary_evs(b);
    assert(e =~= (seq![begin] + seq![Ev::BinaryFragment(b, true)]) + seq![Ev::BinaryEnd]);
    canon_append(seq![begin] + seq![Ev::BinaryFragment(b, true)], seq![Ev::BinaryEnd]);
    canon_append(seq![begin], seq![Ev::BinaryFragment(b, true)]);
    canon_one(begin);
    canon_one(Ev::BinaryFragment(b, true));
    canon_one(Ev::BinaryEnd);
    let l = canon(e);
    assert(l.subrange(1, 1 + s.len() as int) =~= s);
    assert(at(l, s, 1, 2));
    let t0 = Ev::TaggedBegin(Some(tags::CONSTANT_SIZE), None, None);
    let t1 = Ev::TaggedEnd(Some(tags::CONSTANT_SIZE), None, None);
    canon_append(seq![t0] + e, seq![t1]);
    canon_append(seq![t0], e);
    canon_one(t0);
    canon_one(t1);
    let m = canon(fixed(e));
    assert(m =~= c1(t0) + l + c1(t1));
    assert(m.subrange(2, 2 + s.len() as int) =~= s);
    assert(at(m, s, 2, 2));
}
pub broadcast proof fn not_scalar(b: Seq<u8>)
    ensures
        !all_bool(#[trigger] binary_evs(b)), !all_i128(binary_evs(b)), !all_u128(binary_evs(b)), !all_f32(binary_evs(b)), !all_f64(binary_evs(b)),
        !all_bool(fixed(binary_evs(b))), !all_i128(fixed(binary_evs(b))), !all_u128(fixed(binary_evs(b))), !all_f32(fixed(binary_evs(b))), !all_f64(fixed(binary_evs(b))),
{ assert(binary_evs(b)[0] is BinaryBegin); assert(fixed(binary_evs(b))[1] is BinaryBegin); }
pub mod of_binaryslice { use super::*; broadcast use {super::own_binary, super::not_scalar};
//@impl sval | data::binary::{impl Value for BinarySlice}
//@header impl Convert for BinarySlice
//@skip stream, tag
//@trait sval | value::Value
//@freefill BinarySlice
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1(
//@freespec to_bool
    ensures ans_bool(self_.evs(), fails(self_), r),
//@freespec to_f32
    ensures ans_f32(self_.evs(), fails(self_), r),
//@freespec to_f64
    ensures ans_f64(self_.evs(), fails(self_), r),
//@freespec to_u8
    ensures ans_u8(self_.evs(), fails(self_), r),
//@freespec to_u16
    ensures ans_u16(self_.evs(), fails(self_), r),
//@freespec to_u32
    ensures ans_u32(self_.evs(), fails(self_), r),
//@freespec to_u64
    ensures ans_u64(self_.evs(), fails(self_), r),
//@freespec to_u128
    ensures ans_u128(self_.evs(), fails(self_), r),
//@freespec to_i8
    ensures ans_i8(self_.evs(), fails(self_), r),
//@freespec to_i16
    ensures ans_i16(self_.evs(), fails(self_), r),
//@freespec to_i32
    ensures ans_i32(self_.evs(), fails(self_), r),
//@freespec to_i64
    ensures ans_i64(self_.evs(), fails(self_), r),
//@freespec to_i128
    ensures ans_i128(self_.evs(), fails(self_), r),
//@freespec to_text
    ensures ans_text(self_.evs(), fails(self_), r),
//@freespec to_binary
    ensures ans_binary(self_.evs(), fails(self_), r),
//@end
}
pub mod of_binaryarray { use super::*; broadcast use {super::own_binary, super::not_scalar};
//@impl sval | data::binary::{impl<const N: usize> Value for BinaryArray<N>}
//@header impl<const N: usize> Convert for BinaryArray<N>
//@skip stream, tag
//@trait sval | value::Value
//@freefill BinaryArray<N>
//@sub (fn inherited_\w+)(<[^>]*>)?\( => \1<const N: usize>(
//@freespec to_bool
    ensures ans_bool(self_.evs(), fails(self_), r),
//@freespec to_f32
    ensures ans_f32(self_.evs(), fails(self_), r),
//@freespec to_f64
    ensures ans_f64(self_.evs(), fails(self_), r),
//@freespec to_u8
    ensures ans_u8(self_.evs(), fails(self_), r),
//@freespec to_u16
    ensures ans_u16(self_.evs(), fails(self_), r),
//@freespec to_u32
    ensures ans_u32(self_.evs(), fails(self_), r),
//@freespec to_u64
    ensures ans_u64(self_.evs(), fails(self_), r),
//@freespec to_u128
    ensures ans_u128(self_.evs(), fails(self_), r),
//@freespec to_i8
    ensures ans_i8(self_.evs(), fails(self_), r),
//@freespec to_i16
    ensures ans_i16(self_.evs(), fails(self_), r),
//@freespec to_i32
    ensures ans_i32(self_.evs(), fails(self_), r),
//@freespec to_i64
    ensures ans_i64(self_.evs(), fails(self_), r),
//@freespec to_i128
    ensures ans_i128(self_.evs(), fails(self_), r),
//@freespec to_text
    ensures ans_text(self_.evs(), fails(self_), r),
//@freespec to_binary
    ensures ans_binary(self_.evs(), fails(self_), r),
//@end
}
}

pub mod of_option { use super::*;
pub proof fn some_bool<T: Convert>(o: &Option<T>)
    ensures
        *o matches Some(x) ==> forall|r: Option<bool>| #[trigger] ans_bool(x.evs(), fails(&x), r) ==> ans_bool(o.evs(), fails(o), r),
        *o is None ==> ans_bool(o.evs(), fails(o), None),
{
    if let Some(x) = *o {
        some_fails(o, &x);
        assert forall|r: Option<bool>| #[trigger] ans_bool(x.evs(), fails(&x), r) implies ans_bool(o.evs(), fails(o), r) by {
            if let Some(v) = r { some_says(x.evs(), b_bool(v), 0); }
        if !fails(o) && all_bool(o.evs()) {
            assert forall|i: int| 0 <= i < x.evs().len() implies of_bool(#[trigger] x.evs()[i]) by { assert(o.evs()[i + 1] == x.evs()[i]); }
            some_filled(x.evs());
        }
        }
    } else { assert(o.evs()[0] is Tag); }
}
pub proof fn some_f32<T: Convert>(o: &Option<T>)
    ensures
        *o matches Some(x) ==> forall|r: Option<f32>| #[trigger] ans_f32(x.evs(), fails(&x), r) ==> ans_f32(o.evs(), fails(o), r),
        *o is None ==> ans_f32(o.evs(), fails(o), None),
{
    if let Some(x) = *o {
        some_fails(o, &x);
        assert forall|r: Option<f32>| #[trigger] ans_f32(x.evs(), fails(&x), r) implies ans_f32(o.evs(), fails(o), r) by {
            if let Some(v) = r { some_says(x.evs(), b_f32(v), 0); }
        if !fails(o) && all_f32(o.evs()) {
            assert forall|i: int| 0 <= i < x.evs().len() implies of_f32(#[trigger] x.evs()[i]) by { assert(o.evs()[i + 1] == x.evs()[i]); }
            some_filled(x.evs());
        }
        }
    } else { assert(o.evs()[0] is Tag); }
}
pub proof fn some_f64<T: Convert>(o: &Option<T>)
    ensures
        *o matches Some(x) ==> forall|r: Option<f64>| #[trigger] ans_f64(x.evs(), fails(&x), r) ==> ans_f64(o.evs(), fails(o), r),
        *o is None ==> ans_f64(o.evs(), fails(o), None),
{
    if let Some(x) = *o {
        some_fails(o, &x);
        assert forall|r: Option<f64>| #[trigger] ans_f64(x.evs(), fails(&x), r) implies ans_f64(o.evs(), fails(o), r) by {
            if let Some(v) = r { some_says(x.evs(), b_f64(v), 0); }
        if !fails(o) && all_f64(o.evs()) {
            assert forall|i: int| 0 <= i < x.evs().len() implies of_f64(#[trigger] x.evs()[i]) by { assert(o.evs()[i + 1] == x.evs()[i]); }
            some_filled(x.evs());
        }
        }
    } else { assert(o.evs()[0] is Tag); }
}
pub proof fn some_u8<T: Convert>(o: &Option<T>)
    ensures
        *o matches Some(x) ==> forall|r: Option<u8>| #[trigger] ans_u8(x.evs(), fails(&x), r) ==> ans_u8(o.evs(), fails(o), r),
        *o is None ==> ans_u8(o.evs(), fails(o), None),
{
    if let Some(x) = *o {
        some_fails(o, &x);
        assert forall|r: Option<u8>| #[trigger] ans_u8(x.evs(), fails(&x), r) implies ans_u8(o.evs(), fails(o), r) by {
            if let Some(v) = r { some_says(x.evs(), c_int(v as int), 0); }
        if !fails(o) && all_u128(o.evs()) {
            assert forall|i: int| 0 <= i < x.evs().len() implies of_u128(#[trigger] x.evs()[i]) by { assert(o.evs()[i + 1] == x.evs()[i]); }
            some_filled(x.evs());
        }
        }
    } else { assert(o.evs()[0] is Tag); }
}
pub proof fn some_u16<T: Convert>(o: &Option<T>)
    ensures
        *o matches Some(x) ==> forall|r: Option<u16>| #[trigger] ans_u16(x.evs(), fails(&x), r) ==> ans_u16(o.evs(), fails(o), r),
        *o is None ==> ans_u16(o.evs(), fails(o), None),
{
    if let Some(x) = *o {
        some_fails(o, &x);
        assert forall|r: Option<u16>| #[trigger] ans_u16(x.evs(), fails(&x), r) implies ans_u16(o.evs(), fails(o), r) by {
            if let Some(v) = r { some_says(x.evs(), c_int(v as int), 0); }
        if !fails(o) && all_u128(o.evs()) {
            assert forall|i: int| 0 <= i < x.evs().len() implies of_u128(#[trigger] x.evs()[i]) by { assert(o.evs()[i + 1] == x.evs()[i]); }
            some_filled(x.evs());
        }
        }
    } else { assert(o.evs()[0] is Tag); }
}
pub proof fn some_u32<T: Convert>(o: &Option<T>)
    ensures
        *o matches Some(x) ==> forall|r: Option<u32>| #[trigger] ans_u32(x.evs(), fails(&x), r) ==> ans_u32(o.evs(), fails(o), r),
        *o is None ==> ans_u32(o.evs(), fails(o), None),
{
    if let Some(x) = *o {
        some_fails(o, &x);
        assert forall|r: Option<u32>| #[trigger] ans_u32(x.evs(), fails(&x), r) implies ans_u32(o.evs(), fails(o), r) by {
            if let Some(v) = r { some_says(x.evs(), c_int(v as int), 0); }
        if !fails(o) && all_u128(o.evs()) {
            assert forall|i: int| 0 <= i < x.evs().len() implies of_u128(#[trigger] x.evs()[i]) by { assert(o.evs()[i + 1] == x.evs()[i]); }
            some_filled(x.evs());
        }
        }
    } else { assert(o.evs()[0] is Tag); }
}
pub proof fn some_u64<T: Convert>(o: &Option<T>)
    ensures
        *o matches Some(x) ==> forall|r: Option<u64>| #[trigger] ans_u64(x.evs(), fails(&x), r) ==> ans_u64(o.evs(), fails(o), r),
        *o is None ==> ans_u64(o.evs(), fails(o), None),
{
    if let Some(x) = *o {
        some_fails(o, &x);
        assert forall|r: Option<u64>| #[trigger] ans_u64(x.evs(), fails(&x), r) implies ans_u64(o.evs(), fails(o), r) by {
            if let Some(v) = r { some_says(x.evs(), c_int(v as int), 0); }
        if !fails(o) && all_u128(o.evs()) {
            assert forall|i: int| 0 <= i < x.evs().len() implies of_u128(#[trigger] x.evs()[i]) by { assert(o.evs()[i + 1] == x.evs()[i]); }
            some_filled(x.evs());
        }
        }
    } else { assert(o.evs()[0] is Tag); }
}
pub proof fn some_u128<T: Convert>(o: &Option<T>)
    ensures
        *o matches Some(x) ==> forall|r: Option<u128>| #[trigger] ans_u128(x.evs(), fails(&x), r) ==> ans_u128(o.evs(), fails(o), r),
        *o is None ==> ans_u128(o.evs(), fails(o), None),
{
    if let Some(x) = *o {
        some_fails(o, &x);
        assert forall|r: Option<u128>| #[trigger] ans_u128(x.evs(), fails(&x), r) implies ans_u128(o.evs(), fails(o), r) by {
            if let Some(v) = r { some_says(x.evs(), c_int(v as int), 0); }
        if !fails(o) && all_u128(o.evs()) {
            assert forall|i: int| 0 <= i < x.evs().len() implies of_u128(#[trigger] x.evs()[i]) by { assert(o.evs()[i + 1] == x.evs()[i]); }
            some_filled(x.evs());
        }
        }
    } else { assert(o.evs()[0] is Tag); }
}
pub proof fn some_i8<T: Convert>(o: &Option<T>)
    ensures
        *o matches Some(x) ==> forall|r: Option<i8>| #[trigger] ans_i8(x.evs(), fails(&x), r) ==> ans_i8(o.evs(), fails(o), r),
        *o is None ==> ans_i8(o.evs(), fails(o), None),
{
    if let Some(x) = *o {
        some_fails(o, &x);
        assert forall|r: Option<i8>| #[trigger] ans_i8(x.evs(), fails(&x), r) implies ans_i8(o.evs(), fails(o), r) by {
            if let Some(v) = r { some_says(x.evs(), c_int(v as int), 0); }
        if !fails(o) && all_i128(o.evs()) {
            assert forall|i: int| 0 <= i < x.evs().len() implies of_i128(#[trigger] x.evs()[i]) by { assert(o.evs()[i + 1] == x.evs()[i]); }
            some_filled(x.evs());
        }
        }
    } else { assert(o.evs()[0] is Tag); }
}
pub proof fn some_i16<T: Convert>(o: &Option<T>)
    ensures
        *o matches Some(x) ==> forall|r: Option<i16>| #[trigger] ans_i16(x.evs(), fails(&x), r) ==> ans_i16(o.evs(), fails(o), r),
        *o is None ==> ans_i16(o.evs(), fails(o), None),
{
    if let Some(x) = *o {
        some_fails(o, &x);
        assert forall|r: Option<i16>| #[trigger] ans_i16(x.evs(), fails(&x), r) implies ans_i16(o.evs(), fails(o), r) by {
            if let Some(v) = r { some_says(x.evs(), c_int(v as int), 0); }
        if !fails(o) && all_i128(o.evs()) {
            assert forall|i: int| 0 <= i < x.evs().len() implies of_i128(#[trigger] x.evs()[i]) by { assert(o.evs()[i + 1] == x.evs()[i]); }
            some_filled(x.evs());
        }
        }
    } else { assert(o.evs()[0] is Tag); }
}
pub proof fn some_i32<T: Convert>(o: &Option<T>)
    ensures
        *o matches Some(x) ==> forall|r: Option<i32>| #[trigger] ans_i32(x.evs(), fails(&x), r) ==> ans_i32(o.evs(), fails(o), r),
        *o is None ==> ans_i32(o.evs(), fails(o), None),
{
    if let Some(x) = *o {
        some_fails(o, &x);
        assert forall|r: Option<i32>| #[trigger] ans_i32(x.evs(), fails(&x), r) implies ans_i32(o.evs(), fails(o), r) by {
            if let Some(v) = r { some_says(x.evs(), c_int(v as int), 0); }
        if !fails(o) && all_i128(o.evs()) {
            assert forall|i: int| 0 <= i < x.evs().len() implies of_i128(#[trigger] x.evs()[i]) by { assert(o.evs()[i + 1] == x.evs()[i]); }
            some_filled(x.evs());
        }
        }
    } else { assert(o.evs()[0] is Tag); }
}
pub proof fn some_i64<T: Convert>(o: &Option<T>)
    ensures
        *o matches Some(x) ==> forall|r: Option<i64>| #[trigger] ans_i64(x.evs(), fails(&x), r) ==> ans_i64(o.evs(), fails(o), r),
        *o is None ==> ans_i64(o.evs(), fails(o), None),
{
    if let Some(x) = *o {
        some_fails(o, &x);
        assert forall|r: Option<i64>| #[trigger] ans_i64(x.evs(), fails(&x), r) implies ans_i64(o.evs(), fails(o), r) by {
            if let Some(v) = r { some_says(x.evs(), c_int(v as int), 0); }
        if !fails(o) && all_i128(o.evs()) {
            assert forall|i: int| 0 <= i < x.evs().len() implies of_i128(#[trigger] x.evs()[i]) by { assert(o.evs()[i + 1] == x.evs()[i]); }
            some_filled(x.evs());
        }
        }
    } else { assert(o.evs()[0] is Tag); }
}
pub proof fn some_i128<T: Convert>(o: &Option<T>)
    ensures
        *o matches Some(x) ==> forall|r: Option<i128>| #[trigger] ans_i128(x.evs(), fails(&x), r) ==> ans_i128(o.evs(), fails(o), r),
        *o is None ==> ans_i128(o.evs(), fails(o), None),
{
    if let Some(x) = *o {
        some_fails(o, &x);
        assert forall|r: Option<i128>| #[trigger] ans_i128(x.evs(), fails(&x), r) implies ans_i128(o.evs(), fails(o), r) by {
            if let Some(v) = r { some_says(x.evs(), c_int(v as int), 0); }
        if !fails(o) && all_i128(o.evs()) {
            assert forall|i: int| 0 <= i < x.evs().len() implies of_i128(#[trigger] x.evs()[i]) by { assert(o.evs()[i + 1] == x.evs()[i]); }
            some_filled(x.evs());
        }
        }
    } else { assert(o.evs()[0] is Tag); }
}
pub proof fn some_text<T: Convert>(o: &Option<T>)
    ensures
        *o matches Some(x) ==> forall|r: Option<&str>| #[trigger] ans_text(x.evs(), fails(&x), r) ==> ans_text(o.evs(), fails(o), r),
        *o is None ==> ans_text(o.evs(), fails(o), None),
{
    if let Some(x) = *o {
        some_fails(o, &x);
        assert forall|r: Option<&str>| #[trigger] ans_text(x.evs(), fails(&x), r) implies ans_text(o.evs(), fails(o), r) by {
            if let Some(v) = r { some_says(x.evs(), seq![C::Text(v@)], 1); }
        }
    } else { assert(o.evs()[0] is Tag); }
}
pub proof fn some_binary<T: Convert>(o: &Option<T>)
    ensures
        *o matches Some(x) ==> forall|r: Option<&[u8]>| #[trigger] ans_binary(x.evs(), fails(&x), r) ==> ans_binary(o.evs(), fails(o), r),
        *o is None ==> ans_binary(o.evs(), fails(o), None),
{
    if let Some(x) = *o {
        some_fails(o, &x);
        assert forall|r: Option<&[u8]>| #[trigger] ans_binary(x.evs(), fails(&x), r) implies ans_binary(o.evs(), fails(o), r) by {
            if let Some(v) = r { some_says(x.evs(), c_bytes(v@), 2); }
        }
    } else { assert(o.evs()[0] is Tag); }
}
//@fn sval | data::option::{impl<T: Value> Value for Option<T>}::to_bool
//@free Option<T>
//@vis pub
//@sub (fn \w+)\(&self\) => \1<'o, T: Convert>(&'o self)
//@sub Option<&\s*(str|\[u8\])> => Option<&'o \1>
//@sub \|\s*value\s*\|\s*value\.to_bool\(\) => |value: &'o T| -> (q: Option<bool>) ensures ans_bool(value.evs(), fails(value), q) { value.to_bool() }
//@sub \|\s*value\s*\|\s*value\.to_f32\(\) => |value: &'o T| -> (q: Option<f32>) ensures ans_f32(value.evs(), fails(value), q) { value.to_f32() }
//@sub \|\s*value\s*\|\s*value\.to_f64\(\) => |value: &'o T| -> (q: Option<f64>) ensures ans_f64(value.evs(), fails(value), q) { value.to_f64() }
//@sub \|\s*value\s*\|\s*value\.to_u8\(\) => |value: &'o T| -> (q: Option<u8>) ensures ans_u8(value.evs(), fails(value), q) { value.to_u8() }
//@sub \|\s*value\s*\|\s*value\.to_u16\(\) => |value: &'o T| -> (q: Option<u16>) ensures ans_u16(value.evs(), fails(value), q) { value.to_u16() }
//@sub \|\s*value\s*\|\s*value\.to_u32\(\) => |value: &'o T| -> (q: Option<u32>) ensures ans_u32(value.evs(), fails(value), q) { value.to_u32() }
//@sub \|\s*value\s*\|\s*value\.to_u64\(\) => |value: &'o T| -> (q: Option<u64>) ensures ans_u64(value.evs(), fails(value), q) { value.to_u64() }
//@sub \|\s*value\s*\|\s*value\.to_u128\(\) => |value: &'o T| -> (q: Option<u128>) ensures ans_u128(value.evs(), fails(value), q) { value.to_u128() }
//@sub \|\s*value\s*\|\s*value\.to_i8\(\) => |value: &'o T| -> (q: Option<i8>) ensures ans_i8(value.evs(), fails(value), q) { value.to_i8() }
//@sub \|\s*value\s*\|\s*value\.to_i16\(\) => |value: &'o T| -> (q: Option<i16>) ensures ans_i16(value.evs(), fails(value), q) { value.to_i16() }
//@sub \|\s*value\s*\|\s*value\.to_i32\(\) => |value: &'o T| -> (q: Option<i32>) ensures ans_i32(value.evs(), fails(value), q) { value.to_i32() }
//@sub \|\s*value\s*\|\s*value\.to_i64\(\) => |value: &'o T| -> (q: Option<i64>) ensures ans_i64(value.evs(), fails(value), q) { value.to_i64() }
//@sub \|\s*value\s*\|\s*value\.to_i128\(\) => |value: &'o T| -> (q: Option<i128>) ensures ans_i128(value.evs(), fails(value), q) { value.to_i128() }
//@sub \|\s*value\s*\|\s*value\.to_text\(\) => |value: &'o T| -> (q: Option<&'o str>) ensures ans_text(value.evs(), fails(value), q) { value.to_text() }
//@sub \|\s*value\s*\|\s*value\.to_binary\(\) => |value: &'o T| -> (q: Option<&'o [u8]>) ensures ans_binary(value.evs(), fails(value), q) { value.to_binary() }
//@spec
    ensures ans_bool(self.evs(), fails(self), r),
//@head
    proof { some_bool(self); }
//@end
//@fn sval | data::option::{impl<T: Value> Value for Option<T>}::to_f32
//@free Option<T>
//@vis pub
//@sub (fn \w+)\(&self\) => \1<'o, T: Convert>(&'o self)
//@sub Option<&\s*(str|\[u8\])> => Option<&'o \1>
//@sub \|\s*value\s*\|\s*value\.to_bool\(\) => |value: &'o T| -> (q: Option<bool>) ensures ans_bool(value.evs(), fails(value), q) { value.to_bool() }
//@sub \|\s*value\s*\|\s*value\.to_f32\(\) => |value: &'o T| -> (q: Option<f32>) ensures ans_f32(value.evs(), fails(value), q) { value.to_f32() }
//@sub \|\s*value\s*\|\s*value\.to_f64\(\) => |value: &'o T| -> (q: Option<f64>) ensures ans_f64(value.evs(), fails(value), q) { value.to_f64() }
//@sub \|\s*value\s*\|\s*value\.to_u8\(\) => |value: &'o T| -> (q: Option<u8>) ensures ans_u8(value.evs(), fails(value), q) { value.to_u8() }
//@sub \|\s*value\s*\|\s*value\.to_u16\(\) => |value: &'o T| -> (q: Option<u16>) ensures ans_u16(value.evs(), fails(value), q) { value.to_u16() }
//@sub \|\s*value\s*\|\s*value\.to_u32\(\) => |value: &'o T| -> (q: Option<u32>) ensures ans_u32(value.evs(), fails(value), q) { value.to_u32() }
//@sub \|\s*value\s*\|\s*value\.to_u64\(\) => |value: &'o T| -> (q: Option<u64>) ensures ans_u64(value.evs(), fails(value), q) { value.to_u64() }
//@sub \|\s*value\s*\|\s*value\.to_u128\(\) => |value: &'o T| -> (q: Option<u128>) ensures ans_u128(value.evs(), fails(value), q) { value.to_u128() }
//@sub \|\s*value\s*\|\s*value\.to_i8\(\) => |value: &'o T| -> (q: Option<i8>) ensures ans_i8(value.evs(), fails(value), q) { value.to_i8() }
//@sub \|\s*value\s*\|\s*value\.to_i16\(\) => |value: &'o T| -> (q: Option<i16>) ensures ans_i16(value.evs(), fails(value), q) { value.to_i16() }
//@sub \|\s*value\s*\|\s*value\.to_i32\(\) => |value: &'o T| -> (q: Option<i32>) ensures ans_i32(value.evs(), fails(value), q) { value.to_i32() }
//@sub \|\s*value\s*\|\s*value\.to_i64\(\) => |value: &'o T| -> (q: Option<i64>) ensures ans_i64(value.evs(), fails(value), q) { value.to_i64() }
//@sub \|\s*value\s*\|\s*value\.to_i128\(\) => |value: &'o T| -> (q: Option<i128>) ensures ans_i128(value.evs(), fails(value), q) { value.to_i128() }
//@sub \|\s*value\s*\|\s*value\.to_text\(\) => |value: &'o T| -> (q: Option<&'o str>) ensures ans_text(value.evs(), fails(value), q) { value.to_text() }
//@sub \|\s*value\s*\|\s*value\.to_binary\(\) => |value: &'o T| -> (q: Option<&'o [u8]>) ensures ans_binary(value.evs(), fails(value), q) { value.to_binary() }
//@spec
    ensures ans_f32(self.evs(), fails(self), r),
//@head
    proof { some_f32(self); }
//@end
//@fn sval | data::option::{impl<T: Value> Value for Option<T>}::to_f64
//@free Option<T>
//@vis pub
//@sub (fn \w+)\(&self\) => \1<'o, T: Convert>(&'o self)
//@sub Option<&\s*(str|\[u8\])> => Option<&'o \1>
//@sub \|\s*value\s*\|\s*value\.to_bool\(\) => |value: &'o T| -> (q: Option<bool>) ensures ans_bool(value.evs(), fails(value), q) { value.to_bool() }
//@sub \|\s*value\s*\|\s*value\.to_f32\(\) => |value: &'o T| -> (q: Option<f32>) ensures ans_f32(value.evs(), fails(value), q) { value.to_f32() }
//@sub \|\s*value\s*\|\s*value\.to_f64\(\) => |value: &'o T| -> (q: Option<f64>) ensures ans_f64(value.evs(), fails(value), q) { value.to_f64() }
//@sub \|\s*value\s*\|\s*value\.to_u8\(\) => |value: &'o T| -> (q: Option<u8>) ensures ans_u8(value.evs(), fails(value), q) { value.to_u8() }
//@sub \|\s*value\s*\|\s*value\.to_u16\(\) => |value: &'o T| -> (q: Option<u16>) ensures ans_u16(value.evs(), fails(value), q) { value.to_u16() }
//@sub \|\s*value\s*\|\s*value\.to_u32\(\) => |value: &'o T| -> (q: Option<u32>) ensures ans_u32(value.evs(), fails(value), q) { value.to_u32() }
//@sub \|\s*value\s*\|\s*value\.to_u64\(\) => |value: &'o T| -> (q: Option<u64>) ensures ans_u64(value.evs(), fails(value), q) { value.to_u64() }
//@sub \|\s*value\s*\|\s*value\.to_u128\(\) => |value: &'o T| -> (q: Option<u128>) ensures ans_u128(value.evs(), fails(value), q) { value.to_u128() }
//@sub \|\s*value\s*\|\s*value\.to_i8\(\) => |value: &'o T| -> (q: Option<i8>) ensures ans_i8(value.evs(), fails(value), q) { value.to_i8() }
//@sub \|\s*value\s*\|\s*value\.to_i16\(\) => |value: &'o T| -> (q: Option<i16>) ensures ans_i16(value.evs(), fails(value), q) { value.to_i16() }
//@sub \|\s*value\s*\|\s*value\.to_i32\(\) => |value: &'o T| -> (q: Option<i32>) ensures ans_i32(value.evs(), fails(value), q) { value.to_i32() }
//@sub \|\s*value\s*\|\s*value\.to_i64\(\) => |value: &'o T| -> (q: Option<i64>) ensures ans_i64(value.evs(), fails(value), q) { value.to_i64() }
//@sub \|\s*value\s*\|\s*value\.to_i128\(\) => |value: &'o T| -> (q: Option<i128>) ensures ans_i128(value.evs(), fails(value), q) { value.to_i128() }
//@sub \|\s*value\s*\|\s*value\.to_text\(\) => |value: &'o T| -> (q: Option<&'o str>) ensures ans_text(value.evs(), fails(value), q) { value.to_text() }
//@sub \|\s*value\s*\|\s*value\.to_binary\(\) => |value: &'o T| -> (q: Option<&'o [u8]>) ensures ans_binary(value.evs(), fails(value), q) { value.to_binary() }
//@spec
    ensures ans_f64(self.evs(), fails(self), r),
//@head
    proof { some_f64(self); }
//@end
//@fn sval | data::option::{impl<T: Value> Value for Option<T>}::to_u8
//@free Option<T>
//@vis pub
//@sub (fn \w+)\(&self\) => \1<'o, T: Convert>(&'o self)
//@sub Option<&\s*(str|\[u8\])> => Option<&'o \1>
//@sub \|\s*value\s*\|\s*value\.to_bool\(\) => |value: &'o T| -> (q: Option<bool>) ensures ans_bool(value.evs(), fails(value), q) { value.to_bool() }
//@sub \|\s*value\s*\|\s*value\.to_f32\(\) => |value: &'o T| -> (q: Option<f32>) ensures ans_f32(value.evs(), fails(value), q) { value.to_f32() }
//@sub \|\s*value\s*\|\s*value\.to_f64\(\) => |value: &'o T| -> (q: Option<f64>) ensures ans_f64(value.evs(), fails(value), q) { value.to_f64() }
//@sub \|\s*value\s*\|\s*value\.to_u8\(\) => |value: &'o T| -> (q: Option<u8>) ensures ans_u8(value.evs(), fails(value), q) { value.to_u8() }
//@sub \|\s*value\s*\|\s*value\.to_u16\(\) => |value: &'o T| -> (q: Option<u16>) ensures ans_u16(value.evs(), fails(value), q) { value.to_u16() }
//@sub \|\s*value\s*\|\s*value\.to_u32\(\) => |value: &'o T| -> (q: Option<u32>) ensures ans_u32(value.evs(), fails(value), q) { value.to_u32() }
//@sub \|\s*value\s*\|\s*value\.to_u64\(\) => |value: &'o T| -> (q: Option<u64>) ensures ans_u64(value.evs(), fails(value), q) { value.to_u64() }
//@sub \|\s*value\s*\|\s*value\.to_u128\(\) => |value: &'o T| -> (q: Option<u128>) ensures ans_u128(value.evs(), fails(value), q) { value.to_u128() }
//@sub \|\s*value\s*\|\s*value\.to_i8\(\) => |value: &'o T| -> (q: Option<i8>) ensures ans_i8(value.evs(), fails(value), q) { value.to_i8() }
//@sub \|\s*value\s*\|\s*value\.to_i16\(\) => |value: &'o T| -> (q: Option<i16>) ensures ans_i16(value.evs(), fails(value), q) { value.to_i16() }
//@sub \|\s*value\s*\|\s*value\.to_i32\(\) => |value: &'o T| -> (q: Option<i32>) ensures ans_i32(value.evs(), fails(value), q) { value.to_i32() }
//@sub \|\s*value\s*\|\s*value\.to_i64\(\) => |value: &'o T| -> (q: Option<i64>) ensures ans_i64(value.evs(), fails(value), q) { value.to_i64() }
//@sub \|\s*value\s*\|\s*value\.to_i128\(\) => |value: &'o T| -> (q: Option<i128>) ensures ans_i128(value.evs(), fails(value), q) { value.to_i128() }
//@sub \|\s*value\s*\|\s*value\.to_text\(\) => |value: &'o T| -> (q: Option<&'o str>) ensures ans_text(value.evs(), fails(value), q) { value.to_text() }
//@sub \|\s*value\s*\|\s*value\.to_binary\(\) => |value: &'o T| -> (q: Option<&'o [u8]>) ensures ans_binary(value.evs(), fails(value), q) { value.to_binary() }
//@spec
    ensures ans_u8(self.evs(), fails(self), r),
//@head
    proof { some_u8(self); }
//@end
//@fn sval | data::option::{impl<T: Value> Value for Option<T>}::to_u16
//@free Option<T>
//@vis pub
//@sub (fn \w+)\(&self\) => \1<'o, T: Convert>(&'o self)
//@sub Option<&\s*(str|\[u8\])> => Option<&'o \1>
//@sub \|\s*value\s*\|\s*value\.to_bool\(\) => |value: &'o T| -> (q: Option<bool>) ensures ans_bool(value.evs(), fails(value), q) { value.to_bool() }
//@sub \|\s*value\s*\|\s*value\.to_f32\(\) => |value: &'o T| -> (q: Option<f32>) ensures ans_f32(value.evs(), fails(value), q) { value.to_f32() }
//@sub \|\s*value\s*\|\s*value\.to_f64\(\) => |value: &'o T| -> (q: Option<f64>) ensures ans_f64(value.evs(), fails(value), q) { value.to_f64() }
//@sub \|\s*value\s*\|\s*value\.to_u8\(\) => |value: &'o T| -> (q: Option<u8>) ensures ans_u8(value.evs(), fails(value), q) { value.to_u8() }
//@sub \|\s*value\s*\|\s*value\.to_u16\(\) => |value: &'o T| -> (q: Option<u16>) ensures ans_u16(value.evs(), fails(value), q) { value.to_u16() }
//@sub \|\s*value\s*\|\s*value\.to_u32\(\) => |value: &'o T| -> (q: Option<u32>) ensures ans_u32(value.evs(), fails(value), q) { value.to_u32() }
//@sub \|\s*value\s*\|\s*value\.to_u64\(\) => |value: &'o T| -> (q: Option<u64>) ensures ans_u64(value.evs(), fails(value), q) { value.to_u64() }
//@sub \|\s*value\s*\|\s*value\.to_u128\(\) => |value: &'o T| -> (q: Option<u128>) ensures ans_u128(value.evs(), fails(value), q) { value.to_u128() }
//@sub \|\s*value\s*\|\s*value\.to_i8\(\) => |value: &'o T| -> (q: Option<i8>) ensures ans_i8(value.evs(), fails(value), q) { value.to_i8() }
//@sub \|\s*value\s*\|\s*value\.to_i16\(\) => |value: &'o T| -> (q: Option<i16>) ensures ans_i16(value.evs(), fails(value), q) { value.to_i16() }
//@sub \|\s*value\s*\|\s*value\.to_i32\(\) => |value: &'o T| -> (q: Option<i32>) ensures ans_i32(value.evs(), fails(value), q) { value.to_i32() }
//@sub \|\s*value\s*\|\s*value\.to_i64\(\) => |value: &'o T| -> (q: Option<i64>) ensures ans_i64(value.evs(), fails(value), q) { value.to_i64() }
//@sub \|\s*value\s*\|\s*value\.to_i128\(\) => |value: &'o T| -> (q: Option<i128>) ensures ans_i128(value.evs(), fails(value), q) { value.to_i128() }
//@sub \|\s*value\s*\|\s*value\.to_text\(\) => |value: &'o T| -> (q: Option<&'o str>) ensures ans_text(value.evs(), fails(value), q) { value.to_text() }
//@sub \|\s*value\s*\|\s*value\.to_binary\(\) => |value: &'o T| -> (q: Option<&'o [u8]>) ensures ans_binary(value.evs(), fails(value), q) { value.to_binary() }
//@spec
    ensures ans_u16(self.evs(), fails(self), r),
//@head
    proof { some_u16(self); }
//@end
//@fn sval | data::option::{impl<T: Value> Value for Option<T>}::to_u32
//@free Option<T>
//@vis pub
//@sub (fn \w+)\(&self\) => \1<'o, T: Convert>(&'o self)
//@sub Option<&\s*(str|\[u8\])> => Option<&'o \1>
//@sub \|\s*value\s*\|\s*value\.to_bool\(\) => |value: &'o T| -> (q: Option<bool>) ensures ans_bool(value.evs(), fails(value), q) { value.to_bool() }
//@sub \|\s*value\s*\|\s*value\.to_f32\(\) => |value: &'o T| -> (q: Option<f32>) ensures ans_f32(value.evs(), fails(value), q) { value.to_f32() }
//@sub \|\s*value\s*\|\s*value\.to_f64\(\) => |value: &'o T| -> (q: Option<f64>) ensures ans_f64(value.evs(), fails(value), q) { value.to_f64() }
//@sub \|\s*value\s*\|\s*value\.to_u8\(\) => |value: &'o T| -> (q: Option<u8>) ensures ans_u8(value.evs(), fails(value), q) { value.to_u8() }
//@sub \|\s*value\s*\|\s*value\.to_u16\(\) => |value: &'o T| -> (q: Option<u16>) ensures ans_u16(value.evs(), fails(value), q) { value.to_u16() }
//@sub \|\s*value\s*\|\s*value\.to_u32\(\) => |value: &'o T| -> (q: Option<u32>) ensures ans_u32(value.evs(), fails(value), q) { value.to_u32() }
//@sub \|\s*value\s*\|\s*value\.to_u64\(\) => |value: &'o T| -> (q: Option<u64>) ensures ans_u64(value.evs(), fails(value), q) { value.to_u64() }
//@sub \|\s*value\s*\|\s*value\.to_u128\(\) => |value: &'o T| -> (q: Option<u128>) ensures ans_u128(value.evs(), fails(value), q) { value.to_u128() }
//@sub \|\s*value\s*\|\s*value\.to_i8\(\) => |value: &'o T| -> (q: Option<i8>) ensures ans_i8(value.evs(), fails(value), q) { value.to_i8() }
//@sub \|\s*value\s*\|\s*value\.to_i16\(\) => |value: &'o T| -> (q: Option<i16>) ensures ans_i16(value.evs(), fails(value), q) { value.to_i16() }
//@sub \|\s*value\s*\|\s*value\.to_i32\(\) => |value: &'o T| -> (q: Option<i32>) ensures ans_i32(value.evs(), fails(value), q) { value.to_i32() }
//@sub \|\s*value\s*\|\s*value\.to_i64\(\) => |value: &'o T| -> (q: Option<i64>) ensures ans_i64(value.evs(), fails(value), q) { value.to_i64() }
//@sub \|\s*value\s*\|\s*value\.to_i128\(\) => |value: &'o T| -> (q: Option<i128>) ensures ans_i128(value.evs(), fails(value), q) { value.to_i128() }
//@sub \|\s*value\s*\|\s*value\.to_text\(\) => |value: &'o T| -> (q: Option<&'o str>) ensures ans_text(value.evs(), fails(value), q) { value.to_text() }
//@sub \|\s*value\s*\|\s*value\.to_binary\(\) => |value: &'o T| -> (q: Option<&'o [u8]>) ensures ans_binary(value.evs(), fails(value), q) { value.to_binary() }
//@spec
    ensures ans_u32(self.evs(), fails(self), r),
//@head
    proof { some_u32(self); }
//@end
//@fn sval | data::option::{impl<T: Value> Value for Option<T>}::to_u64
//@free Option<T>
//@vis pub
//@sub (fn \w+)\(&self\) => \1<'o, T: Convert>(&'o self)
//@sub Option<&\s*(str|\[u8\])> => Option<&'o \1>
//@sub \|\s*value\s*\|\s*value\.to_bool\(\) => |value: &'o T| -> (q: Option<bool>) ensures ans_bool(value.evs(), fails(value), q) { value.to_bool() }
//@sub \|\s*value\s*\|\s*value\.to_f32\(\) => |value: &'o T| -> (q: Option<f32>) ensures ans_f32(value.evs(), fails(value), q) { value.to_f32() }
//@sub \|\s*value\s*\|\s*value\.to_f64\(\) => |value: &'o T| -> (q: Option<f64>) ensures ans_f64(value.evs(), fails(value), q) { value.to_f64() }
//@sub \|\s*value\s*\|\s*value\.to_u8\(\) => |value: &'o T| -> (q: Option<u8>) ensures ans_u8(value.evs(), fails(value), q) { value.to_u8() }
//@sub \|\s*value\s*\|\s*value\.to_u16\(\) => |value: &'o T| -> (q: Option<u16>) ensures ans_u16(value.evs(), fails(value), q) { value.to_u16() }
//@sub \|\s*value\s*\|\s*value\.to_u32\(\) => |value: &'o T| -> (q: Option<u32>) ensures ans_u32(value.evs(), fails(value), q) { value.to_u32() }
//@sub \|\s*value\s*\|\s*value\.to_u64\(\) => |value: &'o T| -> (q: Option<u64>) ensures ans_u64(value.evs(), fails(value), q) { value.to_u64() }
//@sub \|\s*value\s*\|\s*value\.to_u128\(\) => |value: &'o T| -> (q: Option<u128>) ensures ans_u128(value.evs(), fails(value), q) { value.to_u128() }
//@sub \|\s*value\s*\|\s*value\.to_i8\(\) => |value: &'o T| -> (q: Option<i8>) ensures ans_i8(value.evs(), fails(value), q) { value.to_i8() }
//@sub \|\s*value\s*\|\s*value\.to_i16\(\) => |value: &'o T| -> (q: Option<i16>) ensures ans_i16(value.evs(), fails(value), q) { value.to_i16() }
//@sub \|\s*value\s*\|\s*value\.to_i32\(\) => |value: &'o T| -> (q: Option<i32>) ensures ans_i32(value.evs(), fails(value), q) { value.to_i32() }
//@sub \|\s*value\s*\|\s*value\.to_i64\(\) => |value: &'o T| -> (q: Option<i64>) ensures ans_i64(value.evs(), fails(value), q) { value.to_i64() }
//@sub \|\s*value\s*\|\s*value\.to_i128\(\) => |value: &'o T| -> (q: Option<i128>) ensures ans_i128(value.evs(), fails(value), q) { value.to_i128() }
//@sub \|\s*value\s*\|\s*value\.to_text\(\) => |value: &'o T| -> (q: Option<&'o str>) ensures ans_text(value.evs(), fails(value), q) { value.to_text() }
//@sub \|\s*value\s*\|\s*value\.to_binary\(\) => |value: &'o T| -> (q: Option<&'o [u8]>) ensures ans_binary(value.evs(), fails(value), q) { value.to_binary() }
//@spec
    ensures ans_u64(self.evs(), fails(self), r),
//@head
    proof { some_u64(self); }
//@end
//@fn sval | data::option::{impl<T: Value> Value for Option<T>}::to_u128
//@free Option<T>
//@vis pub
//@sub (fn \w+)\(&self\) => \1<'o, T: Convert>(&'o self)
//@sub Option<&\s*(str|\[u8\])> => Option<&'o \1>
//@sub \|\s*value\s*\|\s*value\.to_bool\(\) => |value: &'o T| -> (q: Option<bool>) ensures ans_bool(value.evs(), fails(value), q) { value.to_bool() }
//@sub \|\s*value\s*\|\s*value\.to_f32\(\) => |value: &'o T| -> (q: Option<f32>) ensures ans_f32(value.evs(), fails(value), q) { value.to_f32() }
//@sub \|\s*value\s*\|\s*value\.to_f64\(\) => |value: &'o T| -> (q: Option<f64>) ensures ans_f64(value.evs(), fails(value), q) { value.to_f64() }
//@sub \|\s*value\s*\|\s*value\.to_u8\(\) => |value: &'o T| -> (q: Option<u8>) ensures ans_u8(value.evs(), fails(value), q) { value.to_u8() }
//@sub \|\s*value\s*\|\s*value\.to_u16\(\) => |value: &'o T| -> (q: Option<u16>) ensures ans_u16(value.evs(), fails(value), q) { value.to_u16() }
//@sub \|\s*value\s*\|\s*value\.to_u32\(\) => |value: &'o T| -> (q: Option<u32>) ensures ans_u32(value.evs(), fails(value), q) { value.to_u32() }
//@sub \|\s*value\s*\|\s*value\.to_u64\(\) => |value: &'o T| -> (q: Option<u64>) ensures ans_u64(value.evs(), fails(value), q) { value.to_u64() }
//@sub \|\s*value\s*\|\s*value\.to_u128\(\) => |value: &'o T| -> (q: Option<u128>) ensures ans_u128(value.evs(), fails(value), q) { value.to_u128() }
//@sub \|\s*value\s*\|\s*value\.to_i8\(\) => |value: &'o T| -> (q: Option<i8>) ensures ans_i8(value.evs(), fails(value), q) { value.to_i8() }
//@sub \|\s*value\s*\|\s*value\.to_i16\(\) => |value: &'o T| -> (q: Option<i16>) ensures ans_i16(value.evs(), fails(value), q) { value.to_i16() }
//@sub \|\s*value\s*\|\s*value\.to_i32\(\) => |value: &'o T| -> (q: Option<i32>) ensures ans_i32(value.evs(), fails(value), q) { value.to_i32() }
//@sub \|\s*value\s*\|\s*value\.to_i64\(\) => |value: &'o T| -> (q: Option<i64>) ensures ans_i64(value.evs(), fails(value), q) { value.to_i64() }
//@sub \|\s*value\s*\|\s*value\.to_i128\(\) => |value: &'o T| -> (q: Option<i128>) ensures ans_i128(value.evs(), fails(value), q) { value.to_i128() }
//@sub \|\s*value\s*\|\s*value\.to_text\(\) => |value: &'o T| -> (q: Option<&'o str>) ensures ans_text(value.evs(), fails(value), q) { value.to_text() }
//@sub \|\s*value\s*\|\s*value\.to_binary\(\) => |value: &'o T| -> (q: Option<&'o [u8]>) ensures ans_binary(value.evs(), fails(value), q) { value.to_binary() }
//@spec
    ensures ans_u128(self.evs(), fails(self), r),
//@head
    proof { some_u128(self); }
//@end
//@fn sval | data::option::{impl<T: Value> Value for Option<T>}::to_i8
//@free Option<T>
//@vis pub
//@sub (fn \w+)\(&self\) => \1<'o, T: Convert>(&'o self)
//@sub Option<&\s*(str|\[u8\])> => Option<&'o \1>
//@sub \|\s*value\s*\|\s*value\.to_bool\(\) => |value: &'o T| -> (q: Option<bool>) ensures ans_bool(value.evs(), fails(value), q) { value.to_bool() }
//@sub \|\s*value\s*\|\s*value\.to_f32\(\) => |value: &'o T| -> (q: Option<f32>) ensures ans_f32(value.evs(), fails(value), q) { value.to_f32() }
//@sub \|\s*value\s*\|\s*value\.to_f64\(\) => |value: &'o T| -> (q: Option<f64>) ensures ans_f64(value.evs(), fails(value), q) { value.to_f64() }
//@sub \|\s*value\s*\|\s*value\.to_u8\(\) => |value: &'o T| -> (q: Option<u8>) ensures ans_u8(value.evs(), fails(value), q) { value.to_u8() }
//@sub \|\s*value\s*\|\s*value\.to_u16\(\) => |value: &'o T| -> (q: Option<u16>) ensures ans_u16(value.evs(), fails(value), q) { value.to_u16() }
//@sub \|\s*value\s*\|\s*value\.to_u32\(\) => |value: &'o T| -> (q: Option<u32>) ensures ans_u32(value.evs(), fails(value), q) { value.to_u32() }
//@sub \|\s*value\s*\|\s*value\.to_u64\(\) => |value: &'o T| -> (q: Option<u64>) ensures ans_u64(value.evs(), fails(value), q) { value.to_u64() }
//@sub \|\s*value\s*\|\s*value\.to_u128\(\) => |value: &'o T| -> (q: Option<u128>) ensures ans_u128(value.evs(), fails(value), q) { value.to_u128() }
//@sub \|\s*value\s*\|\s*value\.to_i8\(\) => |value: &'o T| -> (q: Option<i8>) ensures ans_i8(value.evs(), fails(value), q) { value.to_i8() }
//@sub \|\s*value\s*\|\s*value\.to_i16\(\) => |value: &'o T| -> (q: Option<i16>) ensures ans_i16(value.evs(), fails(value), q) { value.to_i16() }
//@sub \|\s*value\s*\|\s*value\.to_i32\(\) => |value: &'o T| -> (q: Option<i32>) ensures ans_i32(value.evs(), fails(value), q) { value.to_i32() }
//@sub \|\s*value\s*\|\s*value\.to_i64\(\) => |value: &'o T| -> (q: Option<i64>) ensures ans_i64(value.evs(), fails(value), q) { value.to_i64() }
//@sub \|\s*value\s*\|\s*value\.to_i128\(\) => |value: &'o T| -> (q: Option<i128>) ensures ans_i128(value.evs(), fails(value), q) { value.to_i128() }
//@sub \|\s*value\s*\|\s*value\.to_text\(\) => |value: &'o T| -> (q: Option<&'o str>) ensures ans_text(value.evs(), fails(value), q) { value.to_text() }
//@sub \|\s*value\s*\|\s*value\.to_binary\(\) => |value: &'o T| -> (q: Option<&'o [u8]>) ensures ans_binary(value.evs(), fails(value), q) { value.to_binary() }
//@spec
    ensures ans_i8(self.evs(), fails(self), r),
//@head
    proof { some_i8(self); }
//@end
//@fn sval | data::option::{impl<T: Value> Value for Option<T>}::to_i16
//@free Option<T>
//@vis pub
//@sub (fn \w+)\(&self\) => \1<'o, T: Convert>(&'o self)
//@sub Option<&\s*(str|\[u8\])> => Option<&'o \1>
//@sub \|\s*value\s*\|\s*value\.to_bool\(\) => |value: &'o T| -> (q: Option<bool>) ensures ans_bool(value.evs(), fails(value), q) { value.to_bool() }
//@sub \|\s*value\s*\|\s*value\.to_f32\(\) => |value: &'o T| -> (q: Option<f32>) ensures ans_f32(value.evs(), fails(value), q) { value.to_f32() }
//@sub \|\s*value\s*\|\s*value\.to_f64\(\) => |value: &'o T| -> (q: Option<f64>) ensures ans_f64(value.evs(), fails(value), q) { value.to_f64() }
//@sub \|\s*value\s*\|\s*value\.to_u8\(\) => |value: &'o T| -> (q: Option<u8>) ensures ans_u8(value.evs(), fails(value), q) { value.to_u8() }
//@sub \|\s*value\s*\|\s*value\.to_u16\(\) => |value: &'o T| -> (q: Option<u16>) ensures ans_u16(value.evs(), fails(value), q) { value.to_u16() }
//@sub \|\s*value\s*\|\s*value\.to_u32\(\) => |value: &'o T| -> (q: Option<u32>) ensures ans_u32(value.evs(), fails(value), q) { value.to_u32() }
//@sub \|\s*value\s*\|\s*value\.to_u64\(\) => |value: &'o T| -> (q: Option<u64>) ensures ans_u64(value.evs(), fails(value), q) { value.to_u64() }
//@sub \|\s*value\s*\|\s*value\.to_u128\(\) => |value: &'o T| -> (q: Option<u128>) ensures ans_u128(value.evs(), fails(value), q) { value.to_u128() }
//@sub \|\s*value\s*\|\s*value\.to_i8\(\) => |value: &'o T| -> (q: Option<i8>) ensures ans_i8(value.evs(), fails(value), q) { value.to_i8() }
//@sub \|\s*value\s*\|\s*value\.to_i16\(\) => |value: &'o T| -> (q: Option<i16>) ensures ans_i16(value.evs(), fails(value), q) { value.to_i16() }
//@sub \|\s*value\s*\|\s*value\.to_i32\(\) => |value: &'o T| -> (q: Option<i32>) ensures ans_i32(value.evs(), fails(value), q) { value.to_i32() }
//@sub \|\s*value\s*\|\s*value\.to_i64\(\) => |value: &'o T| -> (q: Option<i64>) ensures ans_i64(value.evs(), fails(value), q) { value.to_i64() }
//@sub \|\s*value\s*\|\s*value\.to_i128\(\) => |value: &'o T| -> (q: Option<i128>) ensures ans_i128(value.evs(), fails(value), q) { value.to_i128() }
//@sub \|\s*value\s*\|\s*value\.to_text\(\) => |value: &'o T| -> (q: Option<&'o str>) ensures ans_text(value.evs(), fails(value), q) { value.to_text() }
//@sub \|\s*value\s*\|\s*value\.to_binary\(\) => |value: &'o T| -> (q: Option<&'o [u8]>) ensures ans_binary(value.evs(), fails(value), q) { value.to_binary() }
//@spec
    ensures ans_i16(self.evs(), fails(self), r),
//@head
    proof { some_i16(self); }
//@end
//@fn sval | data::option::{impl<T: Value> Value for Option<T>}::to_i32
//@free Option<T>
//@vis pub
//@sub (fn \w+)\(&self\) => \1<'o, T: Convert>(&'o self)
//@sub Option<&\s*(str|\[u8\])> => Option<&'o \1>
//@sub \|\s*value\s*\|\s*value\.to_bool\(\) => |value: &'o T| -> (q: Option<bool>) ensures ans_bool(value.evs(), fails(value), q) { value.to_bool() }
//@sub \|\s*value\s*\|\s*value\.to_f32\(\) => |value: &'o T| -> (q: Option<f32>) ensures ans_f32(value.evs(), fails(value), q) { value.to_f32() }
//@sub \|\s*value\s*\|\s*value\.to_f64\(\) => |value: &'o T| -> (q: Option<f64>) ensures ans_f64(value.evs(), fails(value), q) { value.to_f64() }
//@sub \|\s*value\s*\|\s*value\.to_u8\(\) => |value: &'o T| -> (q: Option<u8>) ensures ans_u8(value.evs(), fails(value), q) { value.to_u8() }
//@sub \|\s*value\s*\|\s*value\.to_u16\(\) => |value: &'o T| -> (q: Option<u16>) ensures ans_u16(value.evs(), fails(value), q) { value.to_u16() }
//@sub \|\s*value\s*\|\s*value\.to_u32\(\) => |value: &'o T| -> (q: Option<u32>) ensures ans_u32(value.evs(), fails(value), q) { value.to_u32() }
//@sub \|\s*value\s*\|\s*value\.to_u64\(\) => |value: &'o T| -> (q: Option<u64>) ensures ans_u64(value.evs(), fails(value), q) { value.to_u64() }
//@sub \|\s*value\s*\|\s*value\.to_u128\(\) => |value: &'o T| -> (q: Option<u128>) ensures ans_u128(value.evs(), fails(value), q) { value.to_u128() }
//@sub \|\s*value\s*\|\s*value\.to_i8\(\) => |value: &'o T| -> (q: Option<i8>) ensures ans_i8(value.evs(), fails(value), q) { value.to_i8() }
//@sub \|\s*value\s*\|\s*value\.to_i16\(\) => |value: &'o T| -> (q: Option<i16>) ensures ans_i16(value.evs(), fails(value), q) { value.to_i16() }
//@sub \|\s*value\s*\|\s*value\.to_i32\(\) => |value: &'o T| -> (q: Option<i32>) ensures ans_i32(value.evs(), fails(value), q) { value.to_i32() }
//@sub \|\s*value\s*\|\s*value\.to_i64\(\) => |value: &'o T| -> (q: Option<i64>) ensures ans_i64(value.evs(), fails(value), q) { value.to_i64() }
//@sub \|\s*value\s*\|\s*value\.to_i128\(\) => |value: &'o T| -> (q: Option<i128>) ensures ans_i128(value.evs(), fails(value), q) { value.to_i128() }
//@sub \|\s*value\s*\|\s*value\.to_text\(\) => |value: &'o T| -> (q: Option<&'o str>) ensures ans_text(value.evs(), fails(value), q) { value.to_text() }
//@sub \|\s*value\s*\|\s*value\.to_binary\(\) => |value: &'o T| -> (q: Option<&'o [u8]>) ensures ans_binary(value.evs(), fails(value), q) { value.to_binary() }
//@spec
    ensures ans_i32(self.evs(), fails(self), r),
//@head
    proof { some_i32(self); }
//@end
//@fn sval | data::option::{impl<T: Value> Value for Option<T>}::to_i64
//@free Option<T>
//@vis pub
//@sub (fn \w+)\(&self\) => \1<'o, T: Convert>(&'o self)
//@sub Option<&\s*(str|\[u8\])> => Option<&'o \1>
//@sub \|\s*value\s*\|\s*value\.to_bool\(\) => |value: &'o T| -> (q: Option<bool>) ensures ans_bool(value.evs(), fails(value), q) { value.to_bool() }
//@sub \|\s*value\s*\|\s*value\.to_f32\(\) => |value: &'o T| -> (q: Option<f32>) ensures ans_f32(value.evs(), fails(value), q) { value.to_f32() }
//@sub \|\s*value\s*\|\s*value\.to_f64\(\) => |value: &'o T| -> (q: Option<f64>) ensures ans_f64(value.evs(), fails(value), q) { value.to_f64() }
//@sub \|\s*value\s*\|\s*value\.to_u8\(\) => |value: &'o T| -> (q: Option<u8>) ensures ans_u8(value.evs(), fails(value), q) { value.to_u8() }
//@sub \|\s*value\s*\|\s*value\.to_u16\(\) => |value: &'o T| -> (q: Option<u16>) ensures ans_u16(value.evs(), fails(value), q) { value.to_u16() }
//@sub \|\s*value\s*\|\s*value\.to_u32\(\) => |value: &'o T| -> (q: Option<u32>) ensures ans_u32(value.evs(), fails(value), q) { value.to_u32() }
//@sub \|\s*value\s*\|\s*value\.to_u64\(\) => |value: &'o T| -> (q: Option<u64>) ensures ans_u64(value.evs(), fails(value), q) { value.to_u64() }
//@sub \|\s*value\s*\|\s*value\.to_u128\(\) => |value: &'o T| -> (q: Option<u128>) ensures ans_u128(value.evs(), fails(value), q) { value.to_u128() }
//@sub \|\s*value\s*\|\s*value\.to_i8\(\) => |value: &'o T| -> (q: Option<i8>) ensures ans_i8(value.evs(), fails(value), q) { value.to_i8() }
//@sub \|\s*value\s*\|\s*value\.to_i16\(\) => |value: &'o T| -> (q: Option<i16>) ensures ans_i16(value.evs(), fails(value), q) { value.to_i16() }
//@sub \|\s*value\s*\|\s*value\.to_i32\(\) => |value: &'o T| -> (q: Option<i32>) ensures ans_i32(value.evs(), fails(value), q) { value.to_i32() }
//@sub \|\s*value\s*\|\s*value\.to_i64\(\) => |value: &'o T| -> (q: Option<i64>) ensures ans_i64(value.evs(), fails(value), q) { value.to_i64() }
//@sub \|\s*value\s*\|\s*value\.to_i128\(\) => |value: &'o T| -> (q: Option<i128>) ensures ans_i128(value.evs(), fails(value), q) { value.to_i128() }
//@sub \|\s*value\s*\|\s*value\.to_text\(\) => |value: &'o T| -> (q: Option<&'o str>) ensures ans_text(value.evs(), fails(value), q) { value.to_text() }
//@sub \|\s*value\s*\|\s*value\.to_binary\(\) => |value: &'o T| -> (q: Option<&'o [u8]>) ensures ans_binary(value.evs(), fails(value), q) { value.to_binary() }
//@spec
    ensures ans_i64(self.evs(), fails(self), r),
//@head
    proof { some_i64(self); }
//@end
//@fn sval | data::option::{impl<T: Value> Value for Option<T>}::to_i128
//@free Option<T>
//@vis pub
//@sub (fn \w+)\(&self\) => \1<'o, T: Convert>(&'o self)
//@sub Option<&\s*(str|\[u8\])> => Option<&'o \1>
//@sub \|\s*value\s*\|\s*value\.to_bool\(\) => |value: &'o T| -> (q: Option<bool>) ensures ans_bool(value.evs(), fails(value), q) { value.to_bool() }
//@sub \|\s*value\s*\|\s*value\.to_f32\(\) => |value: &'o T| -> (q: Option<f32>) ensures ans_f32(value.evs(), fails(value), q) { value.to_f32() }
//@sub \|\s*value\s*\|\s*value\.to_f64\(\) => |value: &'o T| -> (q: Option<f64>) ensures ans_f64(value.evs(), fails(value), q) { value.to_f64() }
//@sub \|\s*value\s*\|\s*value\.to_u8\(\) => |value: &'o T| -> (q: Option<u8>) ensures ans_u8(value.evs(), fails(value), q) { value.to_u8() }
//@sub \|\s*value\s*\|\s*value\.to_u16\(\) => |value: &'o T| -> (q: Option<u16>) ensures ans_u16(value.evs(), fails(value), q) { value.to_u16() }
//@sub \|\s*value\s*\|\s*value\.to_u32\(\) => |value: &'o T| -> (q: Option<u32>) ensures ans_u32(value.evs(), fails(value), q) { value.to_u32() }
//@sub \|\s*value\s*\|\s*value\.to_u64\(\) => |value: &'o T| -> (q: Option<u64>) ensures ans_u64(value.evs(), fails(value), q) { value.to_u64() }
//@sub \|\s*value\s*\|\s*value\.to_u128\(\) => |value: &'o T| -> (q: Option<u128>) ensures ans_u128(value.evs(), fails(value), q) { value.to_u128() }
//@sub \|\s*value\s*\|\s*value\.to_i8\(\) => |value: &'o T| -> (q: Option<i8>) ensures ans_i8(value.evs(), fails(value), q) { value.to_i8() }
//@sub \|\s*value\s*\|\s*value\.to_i16\(\) => |value: &'o T| -> (q: Option<i16>) ensures ans_i16(value.evs(), fails(value), q) { value.to_i16() }
//@sub \|\s*value\s*\|\s*value\.to_i32\(\) => |value: &'o T| -> (q: Option<i32>) ensures ans_i32(value.evs(), fails(value), q) { value.to_i32() }
//@sub \|\s*value\s*\|\s*value\.to_i64\(\) => |value: &'o T| -> (q: Option<i64>) ensures ans_i64(value.evs(), fails(value), q) { value.to_i64() }
//@sub \|\s*value\s*\|\s*value\.to_i128\(\) => |value: &'o T| -> (q: Option<i128>) ensures ans_i128(value.evs(), fails(value), q) { value.to_i128() }
//@sub \|\s*value\s*\|\s*value\.to_text\(\) => |value: &'o T| -> (q: Option<&'o str>) ensures ans_text(value.evs(), fails(value), q) { value.to_text() }
//@sub \|\s*value\s*\|\s*value\.to_binary\(\) => |value: &'o T| -> (q: Option<&'o [u8]>) ensures ans_binary(value.evs(), fails(value), q) { value.to_binary() }
//@spec
    ensures ans_i128(self.evs(), fails(self), r),
//@head
    proof { some_i128(self); }
//@end
//@fn sval | data::option::{impl<T: Value> Value for Option<T>}::to_text
//@free Option<T>
//@vis pub
//@sub (fn \w+)\(&self\) => \1<'o, T: Convert>(&'o self)
//@sub Option<&\s*(str|\[u8\])> => Option<&'o \1>
//@sub \|\s*value\s*\|\s*value\.to_bool\(\) => |value: &'o T| -> (q: Option<bool>) ensures ans_bool(value.evs(), fails(value), q) { value.to_bool() }
//@sub \|\s*value\s*\|\s*value\.to_f32\(\) => |value: &'o T| -> (q: Option<f32>) ensures ans_f32(value.evs(), fails(value), q) { value.to_f32() }
//@sub \|\s*value\s*\|\s*value\.to_f64\(\) => |value: &'o T| -> (q: Option<f64>) ensures ans_f64(value.evs(), fails(value), q) { value.to_f64() }
//@sub \|\s*value\s*\|\s*value\.to_u8\(\) => |value: &'o T| -> (q: Option<u8>) ensures ans_u8(value.evs(), fails(value), q) { value.to_u8() }
//@sub \|\s*value\s*\|\s*value\.to_u16\(\) => |value: &'o T| -> (q: Option<u16>) ensures ans_u16(value.evs(), fails(value), q) { value.to_u16() }
//@sub \|\s*value\s*\|\s*value\.to_u32\(\) => |value: &'o T| -> (q: Option<u32>) ensures ans_u32(value.evs(), fails(value), q) { value.to_u32() }
//@sub \|\s*value\s*\|\s*value\.to_u64\(\) => |value: &'o T| -> (q: Option<u64>) ensures ans_u64(value.evs(), fails(value), q) { value.to_u64() }
//@sub \|\s*value\s*\|\s*value\.to_u128\(\) => |value: &'o T| -> (q: Option<u128>) ensures ans_u128(value.evs(), fails(value), q) { value.to_u128() }
//@sub \|\s*value\s*\|\s*value\.to_i8\(\) => |value: &'o T| -> (q: Option<i8>) ensures ans_i8(value.evs(), fails(value), q) { value.to_i8() }
//@sub \|\s*value\s*\|\s*value\.to_i16\(\) => |value: &'o T| -> (q: Option<i16>) ensures ans_i16(value.evs(), fails(value), q) { value.to_i16() }
//@sub \|\s*value\s*\|\s*value\.to_i32\(\) => |value: &'o T| -> (q: Option<i32>) ensures ans_i32(value.evs(), fails(value), q) { value.to_i32() }
//@sub \|\s*value\s*\|\s*value\.to_i64\(\) => |value: &'o T| -> (q: Option<i64>) ensures ans_i64(value.evs(), fails(value), q) { value.to_i64() }
//@sub \|\s*value\s*\|\s*value\.to_i128\(\) => |value: &'o T| -> (q: Option<i128>) ensures ans_i128(value.evs(), fails(value), q) { value.to_i128() }
//@sub \|\s*value\s*\|\s*value\.to_text\(\) => |value: &'o T| -> (q: Option<&'o str>) ensures ans_text(value.evs(), fails(value), q) { value.to_text() }
//@sub \|\s*value\s*\|\s*value\.to_binary\(\) => |value: &'o T| -> (q: Option<&'o [u8]>) ensures ans_binary(value.evs(), fails(value), q) { value.to_binary() }
//@spec
    ensures ans_text(self.evs(), fails(self), r),
//@head
    proof { some_text(self); }
//@end
//@fn sval | data::option::{impl<T: Value> Value for Option<T>}::to_binary
//@free Option<T>
//@vis pub
//@sub (fn \w+)\(&self\) => \1<'o, T: Convert>(&'o self)
//@sub Option<&\s*(str|\[u8\])> => Option<&'o \1>
//@sub \|\s*value\s*\|\s*value\.to_bool\(\) => |value: &'o T| -> (q: Option<bool>) ensures ans_bool(value.evs(), fails(value), q) { value.to_bool() }
//@sub \|\s*value\s*\|\s*value\.to_f32\(\) => |value: &'o T| -> (q: Option<f32>) ensures ans_f32(value.evs(), fails(value), q) { value.to_f32() }
//@sub \|\s*value\s*\|\s*value\.to_f64\(\) => |value: &'o T| -> (q: Option<f64>) ensures ans_f64(value.evs(), fails(value), q) { value.to_f64() }
//@sub \|\s*value\s*\|\s*value\.to_u8\(\) => |value: &'o T| -> (q: Option<u8>) ensures ans_u8(value.evs(), fails(value), q) { value.to_u8() }
//@sub \|\s*value\s*\|\s*value\.to_u16\(\) => |value: &'o T| -> (q: Option<u16>) ensures ans_u16(value.evs(), fails(value), q) { value.to_u16() }
//@sub \|\s*value\s*\|\s*value\.to_u32\(\) => |value: &'o T| -> (q: Option<u32>) ensures ans_u32(value.evs(), fails(value), q) { value.to_u32() }
//@sub \|\s*value\s*\|\s*value\.to_u64\(\) => |value: &'o T| -> (q: Option<u64>) ensures ans_u64(value.evs(), fails(value), q) { value.to_u64() }
//@sub \|\s*value\s*\|\s*value\.to_u128\(\) => |value: &'o T| -> (q: Option<u128>) ensures ans_u128(value.evs(), fails(value), q) { value.to_u128() }
//@sub \|\s*value\s*\|\s*value\.to_i8\(\) => |value: &'o T| -> (q: Option<i8>) ensures ans_i8(value.evs(), fails(value), q) { value.to_i8() }
//@sub \|\s*value\s*\|\s*value\.to_i16\(\) => |value: &'o T| -> (q: Option<i16>) ensures ans_i16(value.evs(), fails(value), q) { value.to_i16() }
//@sub \|\s*value\s*\|\s*value\.to_i32\(\) => |value: &'o T| -> (q: Option<i32>) ensures ans_i32(value.evs(), fails(value), q) { value.to_i32() }
//@sub \|\s*value\s*\|\s*value\.to_i64\(\) => |value: &'o T| -> (q: Option<i64>) ensures ans_i64(value.evs(), fails(value), q) { value.to_i64() }
//@sub \|\s*value\s*\|\s*value\.to_i128\(\) => |value: &'o T| -> (q: Option<i128>) ensures ans_i128(value.evs(), fails(value), q) { value.to_i128() }
//@sub \|\s*value\s*\|\s*value\.to_text\(\) => |value: &'o T| -> (q: Option<&'o str>) ensures ans_text(value.evs(), fails(value), q) { value.to_text() }
//@sub \|\s*value\s*\|\s*value\.to_binary\(\) => |value: &'o T| -> (q: Option<&'o [u8]>) ensures ans_binary(value.evs(), fails(value), q) { value.to_binary() }
//@spec
    ensures ans_binary(self.evs(), fails(self), r),
//@head
    proof { some_binary(self); }
//@end
}
}
}
fn main() {}
