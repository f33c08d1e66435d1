// The contract of sval's two interfaces, `Stream` and `Value`.
//
// A stream carries a ghost log of the events it has accepted, a ghost flag that says
// whether it already failed, and a ghost flag that says whether it keeps borrowed
// fragments apart from computed ones.  The contract of every method is the same:
//
//   * it may only be called on a stream that has not failed (so a caller that goes on
//     after an error does not verify);
//   * it returns an error exactly when the stream failed (so a caller that drops an
//     error, or makes one up, does not verify);
//   * otherwise the log grew by exactly the events given.

//@include data.rs
//@include events.rs
// The result of a call that was given events to pass on.
pub ghost struct St { pub log: Seq<Ev>, pub broken: bool, pub lends: bool }
pub open spec fn sent(old: St, new: St, r: Result, evs: Seq<Ev>) -> bool {
    &&& r.is_err() == new.broken
    &&& new.lends == old.lends
    &&& r.is_ok() ==> new.log =~= old.log + evs
}

// The ghost half of `Value`: the events a value stands for.
pub trait Value {
    spec fn evs(&self) -> Seq<Ev>;
}
// The executable half, split off because the verifier rejects the mutual recursion of
// the two traits.
pub trait ValueStream: Value {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, stream: &mut S) -> (r: Result)
        requires !(*old(stream)).st().broken,
        ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(self.evs(), (*old(stream)).st().lends));
}

pub trait Stream<'sval> {
    spec fn st(&self) -> St;

    fn value<V: Value + ?Sized>(&mut self, v: &'sval V) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, lend(v.evs(), (*old(self)).st().lends));

    fn value_computed<V: Value + ?Sized>(&mut self, v: &V) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, lend(v.evs(), false));

    fn null(&mut self) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::Null]);

    fn bool(&mut self, value: bool) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::Bool(value)]);

    fn text_begin(&mut self, num_bytes: Option<usize>) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::TextBegin(num_bytes)]);

    fn text_fragment(&mut self, fragment: &'sval str) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::TextFragment(fragment@, (*old(self)).st().lends)]);

    fn text_fragment_computed(&mut self, fragment: &str) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::TextFragment(fragment@, false)]);

    fn text_end(&mut self) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::TextEnd]);

    fn binary_begin(&mut self, num_bytes: Option<usize>) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::BinaryBegin(num_bytes)]);

    fn binary_fragment(&mut self, fragment: &'sval [u8]) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::BinaryFragment(fragment@, (*old(self)).st().lends)]);

    fn binary_fragment_computed(&mut self, fragment: &[u8]) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::BinaryFragment(fragment@, false)]);

    fn binary_end(&mut self) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::BinaryEnd]);

    fn u8(&mut self, value: u8) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::U8(value)]);

    fn u16(&mut self, value: u16) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::U16(value)]);

    fn u32(&mut self, value: u32) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::U32(value)]);

    fn u64(&mut self, value: u64) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::U64(value)]);

    fn u128(&mut self, value: u128) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::U128(value)]);

    fn i8(&mut self, value: i8) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::I8(value)]);

    fn i16(&mut self, value: i16) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::I16(value)]);

    fn i32(&mut self, value: i32) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::I32(value)]);

    fn i64(&mut self, value: i64) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::I64(value)]);

    fn i128(&mut self, value: i128) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::I128(value)]);

    fn f32(&mut self, value: f32) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::F32(value)]);

    fn f64(&mut self, value: f64) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::F64(value)]);

    fn map_begin(&mut self, num_entries: Option<usize>) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::MapBegin(num_entries)]);

    fn map_key_begin(&mut self) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::MapKeyBegin]);

    fn map_key_end(&mut self) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::MapKeyEnd]);

    fn map_value_begin(&mut self) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::MapValueBegin]);

    fn map_value_end(&mut self) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::MapValueEnd]);

    fn map_end(&mut self) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::MapEnd]);

    fn seq_begin(&mut self, num_entries: Option<usize>) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::SeqBegin(num_entries)]);

    fn seq_value_begin(&mut self) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::SeqValueBegin]);

    fn seq_value_end(&mut self) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::SeqValueEnd]);

    fn seq_end(&mut self) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::SeqEnd]);

    fn enum_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::EnumBegin(ot(tag), ol(label), oi(index))]);

    fn enum_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::EnumEnd(ot(tag), ol(label), oi(index))]);

    fn tagged_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::TaggedBegin(ot(tag), ol(label), oi(index))]);

    fn tagged_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::TaggedEnd(ot(tag), ol(label), oi(index))]);

    fn tag(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::Tag(ot(tag), ol(label), oi(index))]);

    fn tag_hint(&mut self, tag: &Tag) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::TagHint(*tag)]);

    fn record_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>, num_entries: Option<usize>) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries)]);

    fn record_value_begin(&mut self, tag: Option<&Tag>, label: &Label) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::RecordValueBegin(ot(tag), label@)]);

    fn record_value_end(&mut self, tag: Option<&Tag>, label: &Label) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::RecordValueEnd(ot(tag), label@)]);

    fn record_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::RecordEnd(ot(tag), ol(label), oi(index))]);

    fn tuple_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>, num_entries: Option<usize>) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries)]);

    fn tuple_value_begin(&mut self, tag: Option<&Tag>, index: &Index) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::TupleValueBegin(ot(tag), index@)]);

    fn tuple_value_end(&mut self, tag: Option<&Tag>, index: &Index) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::TupleValueEnd(ot(tag), index@)]);

    fn tuple_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::TupleEnd(ot(tag), ol(label), oi(index))]);

    fn record_tuple_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>, num_entries: Option<usize>) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::RecordTupleBegin(ot(tag), ol(label), oi(index), num_entries)]);

    fn record_tuple_value_begin(&mut self, tag: Option<&Tag>, label: &Label, index: &Index) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::RecordTupleValueBegin(ot(tag), label@, index@)]);

    fn record_tuple_value_end(&mut self, tag: Option<&Tag>, label: &Label, index: &Index) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::RecordTupleValueEnd(ot(tag), label@, index@)]);

    fn record_tuple_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).st().broken,
        ensures sent((*old(self)).st(), (*final(self)).st(), r, seq![Ev::RecordTupleEnd(ot(tag), ol(label), oi(index))]);

}

// `v.stream(stream)` for a value only known by its interface: the contract of `Value`.
#[verifier::external_body]
pub fn stream_any<'sval, V: Value + ?Sized, S: Stream<'sval> + ?Sized>(v: &'sval V, stream: &mut S) -> (r: Result)
    requires !(*old(stream)).st().broken,
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(v.evs(), (*old(stream)).st().lends)),
{ unimplemented!() }

// Text is counted in bytes.
pub uninterp spec fn utf8_len(s: Seq<char>) -> nat;

pub open spec fn text_evs(s: Seq<char>) -> Seq<Ev> {
    seq![Ev::TextBegin(Some(utf8_len(s) as usize)), Ev::TextFragment(s, true), Ev::TextEnd]
}
impl Value for str {
    open spec fn evs(&self) -> Seq<Ev> { text_evs(self@) }
}
