pub mod data {
use super::*;
broadcast use {lend_push, lend_lend, append_empty, append_assoc, lend_concat, canon_append, canon_one, canon_text, canon_lend, c_assoc};
//@fn sval | data::number::stream_number
//@sub impl fmt::Display => impl Printed
//@spec
    requires !(*old(stream)).st().broken,
    ensures
        r.is_err() == (*final(stream)).st().broken,
        (*final(stream)).st().lends == (*old(stream)).st().lends,
        r.is_ok() ==> canon((*final(stream)).st().log) =~= canon((*old(stream)).st().log)
            + seq![C::TaggedBegin(Some(tags::NUMBER), None, None)] + number.printed() + seq![C::TaggedEnd(Some(tags::NUMBER), None, None)],
//@end
//@fn sval | data::number::stream_i128
//@vis pub
//@spec
    requires !(*old(stream)).st().broken, !(i64::MIN <= v <= i64::MAX),
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::I128(v)),
//@end
//@fn sval | data::number::stream_u128
//@vis pub
//@spec
    requires !(*old(stream)).st().broken, !(i64::MIN <= v <= i64::MAX),
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::U128(v)),
//@end
}

pub mod default_stream {
use super::*;
broadcast use {lend_push, lend_lend, append_empty, append_assoc, lend_concat, canon_append, canon_one, canon_text, canon_lend, c_assoc, c_bytes_all};
//@fn sval | stream::default_stream::value
//@sub \bv\.stream\(stream\) => stream_any(v, stream)
//@spec
    requires !(*old(stream)).st().broken,
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(v.evs(), (*old(stream)).st().lends)),
//@end
//@fn sval | stream::default_stream::text_fragment
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::TextFragment(fragment@, false)),
//@end
//@fn sval | stream::default_stream::binary_begin
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::BinaryBegin(num_bytes)),
//@end
//@fn sval | stream::default_stream::binary_fragment
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::BinaryFragment(fragment@, false)),
//@end
//@fn sval | stream::default_stream::binary_fragment_computed
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::BinaryFragment(fragment@, false)),
//@loop 0
    invariant
        !(*stream).st().broken,
        (*stream).st().lends == (*old(stream)).st().lends,
        canon((*stream).st().log) =~= canon((*old(stream)).st().log) + c_bytes(fragment@.take(it.index@)),
//@looptail 0
    proof {
        c_bytes_push(fragment@.take(it.index@), fragment@[it.index@]);
        assert(fragment@.take(it.index@ + 1) =~= fragment@.take(it.index@).push(fragment@[it.index@]));
    }
//@end
//@fn sval | stream::default_stream::binary_end
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::BinaryEnd),
//@end
//@fn sval | stream::default_stream::u8
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::U8(value)),
//@end
//@fn sval | stream::default_stream::u16
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::U16(value)),
//@end
//@fn sval | stream::default_stream::u32
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::U32(value)),
//@end
//@fn sval | stream::default_stream::u64
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::U64(value)),
//@end
//@fn sval | stream::default_stream::u128
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::U128(value)),
//@end
//@fn sval | stream::default_stream::i8
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::I8(value)),
//@end
//@fn sval | stream::default_stream::i16
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::I16(value)),
//@end
//@fn sval | stream::default_stream::i32
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::I32(value)),
//@end
//@fn sval | stream::default_stream::i128
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::I128(value)),
//@end
//@fn sval | stream::default_stream::f32
//@sub \bvalue as f64\b => widen(value)
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::F32(value)),
//@end
//@fn sval | stream::default_stream::map_begin
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::MapBegin(num_entries)),
//@end
//@fn sval | stream::default_stream::map_key_begin
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::MapKeyBegin),
//@end
//@fn sval | stream::default_stream::map_key_end
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::MapKeyEnd),
//@end
//@fn sval | stream::default_stream::map_value_begin
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::MapValueBegin),
//@end
//@fn sval | stream::default_stream::map_value_end
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::MapValueEnd),
//@end
//@fn sval | stream::default_stream::map_end
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::MapEnd),
//@end
//@fn sval | stream::default_stream::enum_begin
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::EnumBegin(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | stream::default_stream::enum_end
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::EnumEnd(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | stream::default_stream::tagged_begin
//@spec
    requires !(*old(stream)).st().broken,
    // dropping the tag is the documented degradation: the value inside is untouched
    ensures r.is_ok(), (*final(stream)).st() == (*old(stream)).st(),
//@end
//@fn sval | stream::default_stream::tagged_end
//@spec
    requires !(*old(stream)).st().broken,
    // dropping the tag is the documented degradation: the value inside is untouched
    ensures r.is_ok(), (*final(stream)).st() == (*old(stream)).st(),
//@end
//@fn sval | stream::default_stream::tag
//@as tag_
//@sub if let Some\(&([\w:]+)\)\s*=\s*(\w+) => if is_tag(\2, &\1)
//@sub \bref\s+(?=\w) =>
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::Tag(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | stream::default_stream::tag_hint
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::TagHint(*tag)),
//@end
//@fn sval | stream::default_stream::record_begin
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries)),
//@end
//@fn sval | stream::default_stream::record_value_begin
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::RecordValueBegin(ot(tag), label@)),
//@end
//@fn sval | stream::default_stream::record_value_end
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::RecordValueEnd(ot(tag), label@)),
//@end
//@fn sval | stream::default_stream::record_end
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::RecordEnd(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | stream::default_stream::tuple_begin
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@end
//@fn sval | stream::default_stream::tuple_value_begin
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::TupleValueBegin(ot(tag), index@)),
//@end
//@fn sval | stream::default_stream::tuple_value_end
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::TupleValueEnd(ot(tag), index@)),
//@end
//@fn sval | stream::default_stream::tuple_end
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::TupleEnd(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | stream::default_stream::record_tuple_begin
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::RecordTupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@end
//@fn sval | stream::default_stream::record_tuple_value_begin
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::RecordTupleValueBegin(ot(tag), label@, index@)),
//@end
//@fn sval | stream::default_stream::record_tuple_value_end
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::RecordTupleValueEnd(ot(tag), label@, index@)),
//@end
//@fn sval | stream::default_stream::record_tuple_end
//@spec
    requires !(*old(stream)).st().broken,
    ensures meant((*old(stream)).st(), (*final(stream)).st(), r, Ev::RecordTupleEnd(ot(tag), ol(label), oi(index))),
//@end
}

