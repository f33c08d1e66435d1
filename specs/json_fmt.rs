use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;

verus! {
//@include stream.rs
pub mod sval { pub use crate::*; }

pub mod json {
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use crate::sval;
use crate::is_tag;
pub mod tags {
    use super::*;
    pub const JSON_VALUE: sval::Tag = sval::Tag { id: 101 };
    pub const JSON_TEXT: sval::Tag = sval::Tag { id: 102 };
    pub const JSON_NUMBER: sval::Tag = sval::Tag { id: 103 };
}
//@include text.rs
//@include write.rs
//@include escape.rs stub
//@include number.rs stub
//@include json_steps.rs

pub struct Error { kind: ErrorKind }
pub enum ErrorKind { Generic, InvalidKey }
//@impl sval_json | error::{impl Error}
//@sub pub\(crate\) => pub
//@end

pub mod to_fmt {
use super::*;
use sval::{Tag, Label, Index};
broadcast use {wrote_quoted, ascii_char};
impl TextHandler {
    spec fn hd(&self) -> Hd {
        match self { TextHandler::Native => Hd::Native, TextHandler::Number(n) => Hd::Number(n.nh(), n.is_nan_or_infinity) }
    }
    spec fn room(&self, len: nat) -> bool {
        match self { TextHandler::Native => true, TextHandler::Number(n) => n.leading_zeroes + len <= usize::MAX }
    }
}
// (a number's text is shorter than the address space)
spec fn oroom(h: Option<TextHandler>, len: nat) -> bool { match h { Some(h) => h.room(len), None => true } }
spec fn lroom(h: Option<TextHandler>, l: Option<sval::LabelV>) -> bool { match l { Some(l) => oroom(h, encode_utf8(l.text).len()), None => true } }

spec fn ohd(h: Option<TextHandler>) -> Hd { match h { Some(h) => h.hd(), None => Hd::None } }

//@impl sval_json | to_fmt::{impl TextHandler}
//@literals
//@sub mut\s+out: impl Write => out: &mut (impl Write)
//@spec native
    ensures r.hd() == Hd::Native,
//@spec number
    ensures r.hd() == Hd::Number(nstart(), false),
//@spec text_fragment
    requires !(*old(out)).dead(), (*old(self)).room(v.spec_bytes().len()),
    ensures
        r.is_err() == (*final(out)).dead(),
        r.is_ok() ==> (match (*old(self)).hd() {
            Hd::Number(s, nan) => (*final(self)).hd() is Number
                && number_piece(s, nan, (*final(self)).hd()->Number_0, (*final(self)).hd()->Number_1, v.spec_bytes(), (*old(out)).out(), (*final(out)).out()),
            _ => (*final(self)).hd() == Hd::Native && (*final(out)).out() == (*old(out)).out() + v.spec_bytes(),
        }),
//@end

struct Formatter<W> {
    is_internally_tagged: bool,
    is_current_depth_empty: bool,
    is_text_quoted: bool,
    text_handler: Option<TextHandler>,
    err: Option<Error>,
    out: W,
}
impl<W: Write> Formatter<W> {
    spec fn f(&self) -> F {
        F { tagged: self.is_internally_tagged, empty: self.is_current_depth_empty, quoted: self.is_text_quoted, h: ohd(self.text_handler) }
    }
    spec fn took(&self, to: &Formatter<W>, r: sval::Result, ev: sval::Ev) -> bool {
        &&& r.is_ok() ==> !to.out.dead() && jstep(self.f(), ev, to.f(), self.out.out(), to.out.out())
        &&& !touches_handler(ev) ==> to.text_handler == self.text_handler
        &&& r.is_err() ==> to.out.dead() || (bad_key(self.f(), ev) && to.err.is_some() && to.out.out() == self.out.out())
    }
    // `Stream::value` of a `str` (its events are the subject of C12, the default of C08)
    fn value_str(&mut self, v: &str) -> (r: sval::Result)
        requires !(*old(self)).out.dead(), oroom((*old(self)).text_handler, v.spec_bytes().len()),
        ensures
            r.is_err() == (*final(self)).out.dead(),
            r.is_ok() ==> ({
                let f = (*old(self)).f();
                let f2 = (*final(self)).f();
                &&& f2 == (F { empty: false, h: f2.h, ..f })
                &&& f.h is None ==> f2.h is None && wrote((*old(self)).out.out(), (*final(self)).out.out(),
                        if f.quoted { b_key() } else { none() }, v.spec_bytes(), if f.quoted { b_key() } else { none() })
            }),
    {
        match self.text_begin(Some(v.len())) { Ok(()) => (), Err(e) => return Err(e) }
        match self.text_fragment_computed(v) { Ok(()) => (), Err(e) => return Err(e) }
        match self.text_end() { Ok(()) => (), Err(e) => return Err(e) }
        Ok(())
    }
}

//@impl sval_json | to_fmt::{impl<W> Formatter<W>}
//@header impl<W: Write> Formatter<W>
//@sub ^pub\s+fn => fn
//@spec new
    ensures r.f() == (F { tagged: false, empty: true, quoted: true, h: Hd::None }), r.out == out, r.err.is_none(),
//@spec err
    ensures *final(self) == (Formatter { err: Some(e), ..*old(self) }),
//@end

// what the formatter inherits
pub mod default_stream {
use super::*;
use sval::Result;
//@fn sval | stream::default_stream::text_fragment
//@sub \(impl Stream<'sval> \+ \?Sized\) => Formatter<W>
//@sub (?:pub )?fn text_fragment<'sval> => pub(super) fn text_fragment<'sval, W: Write>
//@spec
    requires !(*old(stream)).out.dead(),
        oroom((*old(stream)).text_handler, fragment.spec_bytes().len()),
    ensures (*old(stream)).took(&*final(stream), r, sval::Ev::TextFragment(fragment@, true)),
//@end
//@fn sval | stream::default_stream::tag_hint
//@sub \(impl Stream<'sval> \+ \?Sized\) => Formatter<W>
//@sub (?:pub )?fn tag_hint<'sval> => pub(super) fn tag_hint<'sval, W: Write>
//@spec
    requires !(*old(stream)).out.dead(),
    ensures (*old(stream)).took(&*final(stream), r, sval::Ev::TagHint(*tag)),
//@end
//@fn sval | stream::default_stream::binary_begin
//@sub \(impl Stream<'sval> \+ \?Sized\) => Formatter<W>
//@sub (?:pub )?fn binary_begin<'sval> => pub(super) fn binary_begin<'sval, W: Write>
//@spec
    requires !(*old(stream)).out.dead(),
    ensures (*old(stream)).took(&*final(stream), r, sval::Ev::BinaryBegin(None)),
//@end
//@fn sval | stream::default_stream::binary_fragment
//@sub \(impl Stream<'sval> \+ \?Sized\) => Formatter<W>
//@sub (?:pub )?fn binary_fragment<'sval> => pub(super) fn binary_fragment<'sval, W: Write>
//@spec
    requires !(*old(stream)).out.dead(),
    ensures (*old(stream)).took(&*final(stream), r, sval::Ev::BinaryFragment(fragment@, true)),
//@end
//@fn sval | stream::default_stream::binary_fragment_computed
//@sub \(impl Stream<'sval> \+ \?Sized\) => Formatter<W>
//@sub (?:pub )?fn binary_fragment_computed<'sval> => pub(super) fn binary_fragment_computed<'sval, W: Write>
//@head
    proof { assert(fragment@.take(fragment@.len() as int) =~= fragment@); assert(bytes_out(fragment@.take(0), (*old(stream)).f().empty) =~= none()); assert((*old(stream)).out.out() + none() =~= (*old(stream)).out.out()); }
//@loop 0
    invariant
        !(*stream).out.dead(), (*stream).text_handler == (*old(stream)).text_handler, (*stream).f() == bytes_f((*old(stream)).f(), fragment@.take(it.index@)),
        (*stream).out.out() == (*old(stream)).out.out() + bytes_out(fragment@.take(it.index@), (*old(stream)).f().empty),
//@looptail 0
    proof {
        assert(fragment@.take(it.index@ + 1).drop_last() =~= fragment@.take(it.index@));
        assert((*stream).out.out() =~= (*old(stream)).out.out() + bytes_out(fragment@.take(it.index@ + 1), (*old(stream)).f().empty));
    }
//@spec
    requires !(*old(stream)).out.dead(),
    ensures (*old(stream)).took(&*final(stream), r, sval::Ev::BinaryFragment(fragment@, false)),
//@end
//@fn sval | stream::default_stream::binary_end
//@sub \(impl Stream<'sval> \+ \?Sized\) => Formatter<W>
//@sub (?:pub )?fn binary_end<'sval> => pub(super) fn binary_end<'sval, W: Write>
//@spec
    requires !(*old(stream)).out.dead(),
    ensures (*old(stream)).took(&*final(stream), r, sval::Ev::BinaryEnd),
//@end
//@fn sval | stream::default_stream::record_value_end
//@sub \(impl Stream<'sval> \+ \?Sized\) => Formatter<W>
//@sub (?:pub )?fn record_value_end<'sval> => pub(super) fn record_value_end<'sval, W: Write>
//@spec
    requires !(*old(stream)).out.dead(),
    ensures (*old(stream)).took(&*final(stream), r, sval::Ev::RecordValueEnd(None, label@)),
//@end
//@fn sval | stream::default_stream::tuple_value_begin
//@sub \(impl Stream<'sval> \+ \?Sized\) => Formatter<W>
//@sub (?:pub )?fn tuple_value_begin<'sval> => pub(super) fn tuple_value_begin<'sval, W: Write>
//@spec
    requires !(*old(stream)).out.dead(),
    ensures (*old(stream)).took(&*final(stream), r, sval::Ev::TupleValueBegin(None, index@)),
//@end
//@fn sval | stream::default_stream::tuple_value_end
//@sub \(impl Stream<'sval> \+ \?Sized\) => Formatter<W>
//@sub (?:pub )?fn tuple_value_end<'sval> => pub(super) fn tuple_value_end<'sval, W: Write>
//@spec
    requires !(*old(stream)).out.dead(),
    ensures (*old(stream)).took(&*final(stream), r, sval::Ev::TupleValueEnd(None, index@)),
//@end
//@fn sval | stream::default_stream::record_tuple_begin
//@sub \(impl Stream<'sval> \+ \?Sized\) => Formatter<W>
//@sub (?:pub )?fn record_tuple_begin<'sval> => pub(super) fn record_tuple_begin<'sval, W: Write>
//@spec
    requires !(*old(stream)).out.dead(),
    ensures (*old(stream)).took(&*final(stream), r, sval::Ev::RecordTupleBegin(None, sval::ol(label), sval::oi(index), None)),
//@end
//@fn sval | stream::default_stream::record_tuple_value_begin
//@sub \(impl Stream<'sval> \+ \?Sized\) => Formatter<W>
//@sub (?:pub )?fn record_tuple_value_begin<'sval> => pub(super) fn record_tuple_value_begin<'sval, W: Write>
//@spec
    requires !(*old(stream)).out.dead(),
    ensures (*old(stream)).took(&*final(stream), r, sval::Ev::RecordTupleValueBegin(None, label@, index@)),
//@end
//@fn sval | stream::default_stream::record_tuple_value_end
//@sub \(impl Stream<'sval> \+ \?Sized\) => Formatter<W>
//@sub (?:pub )?fn record_tuple_value_end<'sval> => pub(super) fn record_tuple_value_end<'sval, W: Write>
//@spec
    requires !(*old(stream)).out.dead(),
    ensures (*old(stream)).took(&*final(stream), r, sval::Ev::RecordTupleValueEnd(None, label@, index@)),
//@end
//@fn sval | stream::default_stream::record_tuple_end
//@sub \(impl Stream<'sval> \+ \?Sized\) => Formatter<W>
//@sub (?:pub )?fn record_tuple_end<'sval> => pub(super) fn record_tuple_end<'sval, W: Write>
//@spec
    requires !(*old(stream)).out.dead(),
    ensures (*old(stream)).took(&*final(stream), r, sval::Ev::RecordTupleEnd(None, sval::ol(label), sval::oi(index))),
//@end
}
//@impl sval_json | to_fmt::{impl<'sval, W> sval::Stream<'sval> for Formatter<W> where W: Write}
//@trait sval | stream::Stream
//@skip value, value_computed
//@sub \(r: Result\) => (r: sval::Result)
//@sub fn (text|binary)_fragment\( => fn \1_fragment<'sval>(
//@header impl<W: Write> Formatter<W>
//@literals
//@sub itoa::Buffer::new\(\)\.format\((\w+)\) => itoa_format(\1)
//@sub ryu::Buffer::new\(\)\.format_finite\((\w+)\) => ryu_format_finite(\1)
//@sub v\.is_nan\(\) \|\| v\.is_infinite\(\) => nan_or_infinite(v)
//@sub match self\.text_handler \{ => match &mut self.text_handler {
//@sub Some\(ref mut handler\) => Some(handler)
//@sub Some\(&((?:sval::)?tags::\w+)\)(?=\s*=>) => t__ if is_tag(t__, &\1)
//@sub if let Some\(&((?:sval::)?tags::\w+)\) = label\.tag\(\) => if is_tag(label.tag(), &\1)
//@sub Some\(TextHandler::Number\(mut number\)\) = self\.text_handler\.take\(\) \{ => Some(TextHandler::Number(number)) = self.text_handler.take() { let mut number = number;
//@sub index\.and_then\(\|(\w+)\| \1\.to_i64\(\)\) => index_i64(index)
//@sub self\.value\(label\.as_str\(\)\) => self.value_str(label.as_str())
//@sub self\.value\(&index\) => self.i64(index)
//@spec null
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::Null),
//@spec bool
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::Bool(v)),
//@spec text_begin
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::TextBegin(None)),
//@spec text_end
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::TextEnd),
//@spec text_fragment_computed
    requires !(*old(self)).out.dead(),
        oroom((*old(self)).text_handler, v.spec_bytes().len()),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::TextFragment(v@, false)),
//@spec map_begin
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::MapBegin(None)),
//@spec map_key_begin
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::MapKeyBegin),
//@spec map_key_end
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::MapKeyEnd),
//@spec map_value_begin
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::MapValueBegin),
//@spec map_value_end
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::MapValueEnd),
//@spec map_end
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::MapEnd),
//@spec seq_begin
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::SeqBegin(None)),
//@spec seq_value_begin
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::SeqValueBegin),
//@spec seq_value_end
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::SeqValueEnd),
//@spec seq_end
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::SeqEnd),
//@spec tag
    requires !(*old(self)).out.dead(),
        lroom((*old(self)).text_handler, sval::ol(label)),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::Tag(sval::ot(tag), sval::ol(label), sval::oi(index))),
//@spec enum_begin
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::EnumBegin(None, sval::ol(label), sval::oi(index))),
//@spec enum_end
    requires !(*old(self)).out.dead(),
        lroom((*old(self)).text_handler, sval::ol(label)),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::EnumEnd(sval::ot(tag), sval::ol(label), sval::oi(index))),
//@spec tagged_begin
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::TaggedBegin(sval::ot(tag), sval::ol(label), sval::oi(index))),
//@spec tagged_end
    requires !(*old(self)).out.dead(), lroom((*old(self)).text_handler, sval::ol(label)),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::TaggedEnd(sval::ot(tag), sval::ol(label), sval::oi(index))),
//@spec record_begin
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::RecordBegin(None, sval::ol(label), sval::oi(index), None)),
//@spec record_value_begin
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::RecordValueBegin(None, label@)),
//@spec record_end
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::RecordEnd(None, sval::ol(label), sval::oi(index))),
//@spec tuple_begin
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::TupleBegin(None, sval::ol(label), sval::oi(index), None)),
//@spec tuple_end
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::TupleEnd(None, sval::ol(label), sval::oi(index))),
//@spec u8
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::U8(v)),
//@spec u16
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::U16(v)),
//@spec u32
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::U32(v)),
//@spec u64
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::U64(v)),
//@spec u128
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::U128(v)),
//@spec i8
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::I8(v)),
//@spec i16
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::I16(v)),
//@spec i32
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::I32(v)),
//@spec i64
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::I64(v)),
//@spec i128
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::I128(v)),
//@spec f32
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::F32(v)),
//@spec f64
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::F64(v)),
//@spec text_fragment
    requires !(*old(self)).out.dead(),
        oroom((*old(self)).text_handler, fragment.spec_bytes().len()),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::TextFragment(fragment@, true)),
//@spec tag_hint
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::TagHint(*tag)),
//@spec binary_begin
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::BinaryBegin(None)),
//@spec binary_fragment
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::BinaryFragment(fragment@, true)),
//@spec binary_fragment_computed
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::BinaryFragment(fragment@, false)),
//@spec binary_end
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::BinaryEnd),
//@spec record_value_end
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::RecordValueEnd(None, label@)),
//@spec tuple_value_begin
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::TupleValueBegin(None, index@)),
//@spec tuple_value_end
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::TupleValueEnd(None, index@)),
//@spec record_tuple_begin
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::RecordTupleBegin(None, sval::ol(label), sval::oi(index), None)),
//@spec record_tuple_value_begin
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::RecordTupleValueBegin(None, label@, index@)),
//@spec record_tuple_value_end
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::RecordTupleValueEnd(None, label@, index@)),
//@spec record_tuple_end
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::RecordTupleEnd(None, sval::ol(label), sval::oi(index))),
//@end

//@impl sval_json | to_fmt::{impl<'sval, W> Formatter<W> where W: Write}
//@header impl<W: Write> Formatter<W>
//@literals
//@sub index\.and_then\(\|(\w+)\| \1\.to_i64\(\)\) => index_i64(index)
//@spec internally_tagged_begin
    requires !(*old(self)).out.dead(),
    ensures
        (*final(self)).text_handler == (*old(self)).text_handler,
        r.is_ok() ==> !(*final(self)).out.dead() && tag_begin((*old(self)).f(), sval::ol(label), sval::oi(index), (*final(self)).f(), (*old(self)).out.out(), (*final(self)).out.out()),
        r.is_err() ==> (*final(self)).out.dead() || (!(*old(self)).is_text_quoted && (*final(self)).err.is_some() && (*old(self)).is_internally_tagged
            && (label.is_some() || oi64(sval::oi(index)).is_some()) && (*final(self)).out.out() == (*old(self)).out.out()),
//@spec internally_tagged_map_begin_label
    requires !(*old(self)).out.dead(), !(*old(self)).is_internally_tagged,
    ensures
        (*final(self)).text_handler == (*old(self)).text_handler,
        r.is_ok() ==> !(*final(self)).out.dead() && (*old(self)).is_text_quoted
            && (*final(self)).f() == (F { empty: true, ..(*old(self)).f() })
            && wrote((*old(self)).out.out(), (*final(self)).out.out(), b_open_key(), label.spec_bytes(), b_colon()),
        r.is_err() ==> (*final(self)).out.dead() || (!(*old(self)).is_text_quoted && (*final(self)).err.is_some() && (*final(self)).out.out() == (*old(self)).out.out()),
//@spec internally_tagged_map_begin_index
    requires !(*old(self)).out.dead(), !(*old(self)).is_internally_tagged,
    ensures
        (*final(self)).text_handler == (*old(self)).text_handler,
        r.is_ok() ==> !(*final(self)).out.dead() && (*old(self)).is_text_quoted
            && (*final(self)).f() == (F { empty: false, ..(*old(self)).f() })
            && (*final(self)).out.out() =~= (*old(self)).out.out() + b_open_key() + dec(index as int) + b_colon(),
        r.is_err() ==> (*final(self)).out.dead() || (!(*old(self)).is_text_quoted && (*final(self)).err.is_some() && (*final(self)).out.out() == (*old(self)).out.out()),
//@spec internally_tagged_map_end
    requires !(*old(self)).out.dead(),
    ensures (*old(self)).took(&*final(self), r, sval::Ev::MapEnd),
//@spec internally_tagged_end
    ensures r.is_ok(), (*final(self)).text_handler == (*old(self)).text_handler, tag_end((*old(self)).f(), sval::ol(label), sval::oi(index), (*final(self)).f()), (*final(self)).out == (*old(self)).out,
//@end

}
}
fn main() {}
}
