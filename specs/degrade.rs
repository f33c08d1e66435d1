// C08: a stream that leaves a method to its default receives an equivalent, simpler value.
use vstd::prelude::*;
verus! {
//@include stream.rs
//@include canon.rs
//@include default_stream.rs

// The provided methods of the `Stream` trait itself.
pub mod provided {
use super::*;
//@fn sval | stream::Stream::text_fragment
//@as default_text_fragment
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::TextFragment(fragment@, false)),
//@end
//@fn sval | stream::Stream::binary_begin
//@as default_binary_begin
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::BinaryBegin(num_bytes)),
//@end
//@fn sval | stream::Stream::binary_fragment
//@as default_binary_fragment
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::BinaryFragment(fragment@, false)),
//@end
//@fn sval | stream::Stream::binary_fragment_computed
//@as default_binary_fragment_computed
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::BinaryFragment(fragment@, false)),
//@end
//@fn sval | stream::Stream::binary_end
//@as default_binary_end
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::BinaryEnd),
//@end
//@fn sval | stream::Stream::u8
//@as default_u8
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::U8(value)),
//@end
//@fn sval | stream::Stream::u16
//@as default_u16
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::U16(value)),
//@end
//@fn sval | stream::Stream::u32
//@as default_u32
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::U32(value)),
//@end
//@fn sval | stream::Stream::u64
//@as default_u64
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::U64(value)),
//@end
//@fn sval | stream::Stream::u128
//@as default_u128
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::U128(value)),
//@end
//@fn sval | stream::Stream::i8
//@as default_i8
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::I8(value)),
//@end
//@fn sval | stream::Stream::i16
//@as default_i16
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::I16(value)),
//@end
//@fn sval | stream::Stream::i32
//@as default_i32
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::I32(value)),
//@end
//@fn sval | stream::Stream::i128
//@as default_i128
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::I128(value)),
//@end
//@fn sval | stream::Stream::f32
//@as default_f32
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::F32(value)),
//@end
//@fn sval | stream::Stream::map_begin
//@as default_map_begin
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::MapBegin(num_entries)),
//@end
//@fn sval | stream::Stream::map_key_begin
//@as default_map_key_begin
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::MapKeyBegin),
//@end
//@fn sval | stream::Stream::map_key_end
//@as default_map_key_end
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::MapKeyEnd),
//@end
//@fn sval | stream::Stream::map_value_begin
//@as default_map_value_begin
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::MapValueBegin),
//@end
//@fn sval | stream::Stream::map_value_end
//@as default_map_value_end
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::MapValueEnd),
//@end
//@fn sval | stream::Stream::map_end
//@as default_map_end
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::MapEnd),
//@end
//@fn sval | stream::Stream::enum_begin
//@as default_enum_begin
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::EnumBegin(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | stream::Stream::enum_end
//@as default_enum_end
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::EnumEnd(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | stream::Stream::tagged_begin
//@as default_tagged_begin
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures r.is_ok(), (*final(self)).st() == (*old(self)).st(),
//@end
//@fn sval | stream::Stream::tagged_end
//@as default_tagged_end
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures r.is_ok(), (*final(self)).st() == (*old(self)).st(),
//@end
//@fn sval | stream::Stream::tag
//@as default_tag
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::Tag(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | stream::Stream::tag_hint
//@as default_tag_hint
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::TagHint(*tag)),
//@end
//@fn sval | stream::Stream::record_begin
//@as default_record_begin
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries)),
//@end
//@fn sval | stream::Stream::record_value_begin
//@as default_record_value_begin
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::RecordValueBegin(ot(tag), label@)),
//@end
//@fn sval | stream::Stream::record_value_end
//@as default_record_value_end
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::RecordValueEnd(ot(tag), label@)),
//@end
//@fn sval | stream::Stream::record_end
//@as default_record_end
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::RecordEnd(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | stream::Stream::tuple_begin
//@as default_tuple_begin
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@end
//@fn sval | stream::Stream::tuple_value_begin
//@as default_tuple_value_begin
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::TupleValueBegin(ot(tag), index@)),
//@end
//@fn sval | stream::Stream::tuple_value_end
//@as default_tuple_value_end
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::TupleValueEnd(ot(tag), index@)),
//@end
//@fn sval | stream::Stream::tuple_end
//@as default_tuple_end
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::TupleEnd(ot(tag), ol(label), oi(index))),
//@end
//@fn sval | stream::Stream::record_tuple_begin
//@as default_record_tuple_begin
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::RecordTupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@end
//@fn sval | stream::Stream::record_tuple_value_begin
//@as default_record_tuple_value_begin
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::RecordTupleValueBegin(ot(tag), label@, index@)),
//@end
//@fn sval | stream::Stream::record_tuple_value_end
//@as default_record_tuple_value_end
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::RecordTupleValueEnd(ot(tag), label@, index@)),
//@end
//@fn sval | stream::Stream::record_tuple_end
//@as default_record_tuple_end
//@free (impl Stream<'sval> + ?Sized)
//@sub default_stream::tag\b => default_stream::tag_
//@sub (fn \w+)(<[^>]*>)?\( => \1<'sval>(
//@spec
    requires !(*old(self)).st().broken,
    ensures meant((*old(self)).st(), (*final(self)).st(), r, Ev::RecordTupleEnd(ot(tag), ol(label), oi(index))),
//@end
}
}
fn main() {}
