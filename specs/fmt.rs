// C15: formatted text mirrors the value (generated by lib/mkfmt.py).
#![verifier::exec_allows_no_decreases_clause]
use vstd::prelude::*;
verus! {
//@include data.rs
//@include events.rs
pub mod sval { pub use super::*; }
pub mod fmttags {
    use super::*;
    pub const NUMBER: Tag = crate::tags::NUMBER;
    pub const ATOM: Tag = Tag { id: 201 };
    pub const PUNCT: Tag = Tag { id: 202 };
    pub const IDENT: Tag = Tag { id: 203 };
    pub const TEXT: Tag = Tag { id: 204 };
    pub const WS: Tag = Tag { id: 205 };
}

// The text of numbers (itoa, ryu and Display are trusted to print it).
pub uninterp spec fn dec(n: int) -> Seq<char>;
pub uninterp spec fn shown32(v: f32) -> Seq<char>;
pub uninterp spec fn shown64(v: f64) -> Seq<char>;
pub uninterp spec fn ryu32(v: f32) -> Seq<char>;
pub uninterp spec fn ryu64(v: f64) -> Seq<char>;

// What is known of a token writer.  One that overrides everything logs every call; one that overrides
// `write_token` gets characters, each with its kind; a plain `fmt::Write` gets the characters only.
pub ghost enum Mode { Calls, Kinds, Plain, Generic }
pub ghost enum Call {
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    F32(f32),
    F64(f64),
    Null,
    Bool(bool),
    Type(Seq<char>),
    Field(Seq<char>),
    Ident(Seq<char>),
    Punct(Seq<char>),
    Ws(Seq<char>),
    TextQuote,
    Text(Seq<char>),
    MapBegin,
    MapKeyBegin(bool),
    MapValueBegin(bool),
    MapEnd(bool),
    RecordType(Seq<char>),
    RecordBegin,
    RecordValueBegin(Seq<char>, bool),
    RecordEnd(bool),
    SeqBegin,
    SeqValueBegin(bool),
    SeqEnd(bool),
    TupleType(Seq<char>),
    TupleBegin,
    TupleValueBegin(bool),
    TupleEnd(bool),
    Token(Tag, Seq<char>),
    Number(Seq<char>),
    Atom(Seq<char>),
}
pub ghost struct Ch { pub kind: Option<Tag>, pub c: char }
pub ghost struct T { pub mode: Mode, pub calls: Seq<Call>, pub chars: Seq<Ch>, pub broken: bool }
pub open spec fn ch(m: Mode, kind: Tag, s: Seq<char>) -> Seq<Ch> {
    Seq::new(s.len(), |i: int| Ch { kind: if m is Kinds { Some(kind) } else { None }, c: s[i] })
}
pub open spec fn bare(s: Seq<char>) -> Seq<Ch> { Seq::new(s.len(), |i: int| Ch { kind: None, c: s[i] }) }

// How each character of a text is escaped (`char::escape_debug`).
pub uninterp spec fn esc_of(c: char) -> Seq<char>;
pub open spec fn escaped(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { escaped(s.drop_last()) + esc_of(s.last()) } }

pub open spec fn num(m: Mode, s: Seq<char>) -> Seq<Ch> { ch(m, fmttags::NUMBER, s) }
pub open spec fn ident(m: Mode, s: Seq<char>) -> Seq<Ch> { ch(m, fmttags::IDENT, s) }
pub open spec fn punct(m: Mode, s: Seq<char>) -> Seq<Ch> { ch(m, fmttags::PUNCT, s) }
pub open spec fn space(m: Mode) -> Seq<Ch> { ch(m, fmttags::WS, " "@) }
pub open spec fn comma_if(m: Mode, b: bool) -> Seq<Ch> { if b { punct(m, ","@) } else { Seq::empty() } }
pub open spec fn space_if(m: Mode, b: bool) -> Seq<Ch> { if b { space(m) } else { Seq::empty() } }
// The Debug-like text of each call.
pub open spec fn txt(m: Mode, c: Call) -> Seq<Ch> {
    match c {
        Call::U8(v) => num(m, dec(v as int)),
        Call::U16(v) => num(m, dec(v as int)),
        Call::U32(v) => num(m, dec(v as int)),
        Call::U64(v) => num(m, dec(v as int)),
        Call::U128(v) => num(m, dec(v as int)),
        Call::I8(v) => num(m, dec(v as int)),
        Call::I16(v) => num(m, dec(v as int)),
        Call::I32(v) => num(m, dec(v as int)),
        Call::I64(v) => num(m, dec(v as int)),
        Call::I128(v) => num(m, dec(v as int)),
        Call::F32(v) => num(m, if m is Generic { ryu32(v) } else { shown32(v) }),
        Call::F64(v) => num(m, if m is Generic { ryu64(v) } else { shown64(v) }),
        Call::Null => ch(m, fmttags::ATOM, "()"@),
        Call::Bool(b) => ch(m, fmttags::ATOM, if b { "true"@ } else { "false"@ }),
        Call::Type(s) => ident(m, s),
        Call::Field(s) => ident(m, s),
        Call::Ident(s) => ident(m, s),
        Call::Punct(s) => punct(m, s),
        Call::Ws(s) => ch(m, fmttags::WS, s),
        Call::TextQuote => ch(m, fmttags::TEXT, "\""@),
        Call::Text(s) => ch(m, fmttags::TEXT, escaped(s)),
        Call::MapBegin => punct(m, "{"@),
        Call::MapKeyBegin(first) => comma_if(m, !first) + space(m),
        Call::MapValueBegin(_) => punct(m, ":"@) + space(m),
        Call::MapEnd(empty) => space_if(m, !empty) + punct(m, "}"@),
        Call::RecordType(s) => ident(m, s) + space(m),
        Call::RecordBegin => punct(m, "{"@),
        Call::RecordValueBegin(s, first) => comma_if(m, !first) + space(m) + ident(m, s) + punct(m, ":"@) + space(m),
        Call::RecordEnd(empty) => space_if(m, !empty) + punct(m, "}"@),
        Call::SeqBegin => punct(m, "["@),
        Call::SeqValueBegin(first) => comma_if(m, !first) + space_if(m, !first),
        Call::SeqEnd(_) => punct(m, "]"@),
        Call::TupleType(s) => ident(m, s),
        Call::TupleBegin => punct(m, "("@),
        Call::TupleValueBegin(first) => comma_if(m, !first) + space_if(m, !first),
        Call::TupleEnd(_) => punct(m, ")"@),
        Call::Token(tag, s) => ch(m, tag, s),
        Call::Number(s) => num(m, s),
        Call::Atom(s) => ch(m, fmttags::ATOM, s),
    }
}
pub open spec fn after(t: T, c: Call) -> T {
    if t.mode is Calls { T { calls: t.calls.push(c), ..t } } else { T { chars: t.chars + txt(t.mode, c), ..t } }
}
pub open spec fn wrote(old: T, new: T, r: fmt::Result, c: Call) -> bool {
    &&& r.is_err() == new.broken
    &&& r.is_ok() ==> new == after(old, c)
}
pub open spec fn is_text(m: Mode) -> bool { m is Plain || m is Generic }
pub open spec fn put(old: T, new: T, r: fmt::Result, s: Seq<char>) -> bool {
    &&& r.is_err() == new.broken
    &&& r.is_ok() ==> new == (T { chars: old.chars + bare(s), ..old })
}
pub proof fn ch_app(m: Mode, k: Tag, a: Seq<char>, b: Seq<char>)
    ensures ch(m, k, a + b) =~= ch(m, k, a) + ch(m, k, b),
{ }
pub broadcast proof fn seq_assoc(a: Seq<Ch>, b: Seq<Ch>, c: Seq<Ch>)
    ensures #[trigger] ((a + b) + c) =~= a + (b + c),
{ }
pub broadcast proof fn seq_none(a: Seq<Ch>)
    ensures #[trigger] (a + Seq::<Ch>::empty()) =~= a,
{ }
pub broadcast proof fn text_ch(m: Mode, k: Tag, s: Seq<char>)
    ensures is_text(m) ==> #[trigger] ch(m, k, s) =~= bare(s),
{ }

pub mod fmt {
    use super::*;
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    // `format_args!("{}", v)`
    #[verifier::external_body]
    pub struct Arguments<'a> { p: core::marker::PhantomData<&'a ()> }
    impl<'a> Arguments<'a> { pub uninterp spec fn text(&self) -> Seq<char>; }
    #[verifier::external_body]
    pub fn arguments<'a, D: Display>(v: D) -> (r: Arguments<'a>) ensures r.text() == v.shown() { unimplemented!() }
    // (a plain `fmt::Write` has a text mode; one with its own `write_token` is not written to directly)
    pub trait Write {
        spec fn t(&self) -> T;
        fn write_str(&mut self, s: &str) -> (r: Result)
            requires !(*old(self)).t().broken, is_text((*old(self)).t().mode),
            ensures put((*old(self)).t(), (*final(self)).t(), r, s@);
        fn write_char(&mut self, c: char) -> (r: Result)
            requires !(*old(self)).t().broken, is_text((*old(self)).t().mode),
            ensures put((*old(self)).t(), (*final(self)).t(), r, seq![c]);
        fn write_fmt(&mut self, args: Arguments<'_>) -> (r: Result)
            requires !(*old(self)).t().broken, is_text((*old(self)).t().mode),
            ensures put((*old(self)).t(), (*final(self)).t(), r, args.text());
    }
    pub trait TextWrite: Write { proof fn plain(&self) ensures self.t().mode is Plain; }
    #[verifier::external_body]
    pub struct Formatter<'a> { p: core::marker::PhantomData<&'a ()> }
    impl<'a> Formatter<'a> { pub uninterp spec fn state(&self) -> T; }
    impl<'a> Write for Formatter<'a> {
        open spec fn t(&self) -> T { T { mode: Mode::Plain, ..self.state() } }
        #[verifier::external_body] fn write_str(&mut self, s: &str) -> Result { unimplemented!() }
        #[verifier::external_body] fn write_char(&mut self, c: char) -> Result { unimplemented!() }
        #[verifier::external_body] fn write_fmt(&mut self, args: Arguments<'_>) -> Result { unimplemented!() }
    }
    pub trait Display {
        spec fn shown(&self) -> Seq<char>;
        fn fmt<'a>(&self, f: &mut Formatter<'a>) -> (r: Result)
            requires !(*old(f)).t().broken,
            ensures put((*old(f)).t(), (*final(f)).t(), r, self.shown());
    }
    impl Display for u8 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn fmt<'a>(&self, f: &mut Formatter<'a>) -> Result { unimplemented!() } }
    impl Display for u16 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn fmt<'a>(&self, f: &mut Formatter<'a>) -> Result { unimplemented!() } }
    impl Display for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn fmt<'a>(&self, f: &mut Formatter<'a>) -> Result { unimplemented!() } }
    impl Display for u64 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn fmt<'a>(&self, f: &mut Formatter<'a>) -> Result { unimplemented!() } }
    impl Display for u128 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn fmt<'a>(&self, f: &mut Formatter<'a>) -> Result { unimplemented!() } }
    impl Display for i8 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn fmt<'a>(&self, f: &mut Formatter<'a>) -> Result { unimplemented!() } }
    impl Display for i16 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn fmt<'a>(&self, f: &mut Formatter<'a>) -> Result { unimplemented!() } }
    impl Display for i32 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn fmt<'a>(&self, f: &mut Formatter<'a>) -> Result { unimplemented!() } }
    impl Display for i64 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn fmt<'a>(&self, f: &mut Formatter<'a>) -> Result { unimplemented!() } }
    impl Display for i128 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn fmt<'a>(&self, f: &mut Formatter<'a>) -> Result { unimplemented!() } }
    impl Display for f32 { open spec fn shown(&self) -> Seq<char> { shown32(*self) } #[verifier::external_body] fn fmt<'a>(&self, f: &mut Formatter<'a>) -> Result { unimplemented!() } }
    impl Display for f64 { open spec fn shown(&self) -> Seq<char> { shown64(*self) } #[verifier::external_body] fn fmt<'a>(&self, f: &mut Formatter<'a>) -> Result { unimplemented!() } }
    impl Display for bool { open spec fn shown(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } } #[verifier::external_body] fn fmt<'a>(&self, f: &mut Formatter<'a>) -> Result { unimplemented!() } }
    impl Display for str { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn fmt<'a>(&self, f: &mut Formatter<'a>) -> Result { unimplemented!() } }
    impl<'b, D: Display + ?Sized> Display for &'b D { open spec fn shown(&self) -> Seq<char> { (**self).shown() } #[verifier::external_body] fn fmt<'a>(&self, f: &mut Formatter<'a>) -> Result { unimplemented!() } }
}
pub use fmt::{Display, Write, TextWrite};
pub trait TokenWrite: Write {
    fn write_token<T: fmt::Display>(&mut self, tag: &sval::Tag, token: T) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Token(*tag, token.shown()));
    fn write_number<N: fmt::Display>(&mut self, num: N) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Number(num.shown()));
    fn write_atom<A: fmt::Display>(&mut self, atom: A) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Atom(atom.shown()));
    fn write_u8(&mut self, value: u8) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::U8(value));
    fn write_u16(&mut self, value: u16) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::U16(value));
    fn write_u32(&mut self, value: u32) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::U32(value));
    fn write_u64(&mut self, value: u64) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::U64(value));
    fn write_u128(&mut self, value: u128) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::U128(value));
    fn write_i8(&mut self, value: i8) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::I8(value));
    fn write_i16(&mut self, value: i16) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::I16(value));
    fn write_i32(&mut self, value: i32) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::I32(value));
    fn write_i64(&mut self, value: i64) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::I64(value));
    fn write_i128(&mut self, value: i128) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::I128(value));
    fn write_f32(&mut self, value: f32) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::F32(value));
    fn write_f64(&mut self, value: f64) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::F64(value));
    fn write_null(&mut self) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Null);
    fn write_bool(&mut self, value: bool) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Bool(value));
    fn write_type(&mut self, ty: &str) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Type(ty@));
    fn write_field(&mut self, field: &str) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Field(field@));
    fn write_ident(&mut self, ident: &str) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Ident(ident@));
    fn write_punct(&mut self, punct: &str) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Punct(punct@));
    fn write_ws(&mut self, ws: &str) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Ws(ws@));
    fn write_text_quote(&mut self) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::TextQuote);
    fn write_text(&mut self, text: &str) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Text(text@));
    fn write_map_begin(&mut self) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::MapBegin);
    fn write_map_key_begin(&mut self, is_first: bool) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::MapKeyBegin(is_first));
    fn write_map_value_begin(&mut self, is_first: bool) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::MapValueBegin(is_first));
    fn write_map_end(&mut self, is_empty: bool) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::MapEnd(is_empty));
    fn write_record_type(&mut self, ty: &str) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::RecordType(ty@));
    fn write_record_begin(&mut self) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::RecordBegin);
    fn write_record_value_begin(&mut self, field: &str, is_first: bool) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::RecordValueBegin(field@, is_first));
    fn write_record_end(&mut self, is_empty: bool) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::RecordEnd(is_empty));
    fn write_seq_begin(&mut self) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::SeqBegin);
    fn write_seq_value_begin(&mut self, is_first: bool) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::SeqValueBegin(is_first));
    fn write_seq_end(&mut self, is_empty: bool) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::SeqEnd(is_empty));
    fn write_tuple_type(&mut self, ty: &str) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::TupleType(ty@));
    fn write_tuple_begin(&mut self) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::TupleBegin);
    fn write_tuple_value_begin(&mut self, is_first: bool) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::TupleValueBegin(is_first));
    fn write_tuple_end(&mut self, is_empty: bool) -> (r: fmt::Result)
        requires !(*old(self)).t().broken,
        ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::TupleEnd(is_empty));
}

// ---------------------------------------------------------------- escaping

pub mod escape {
use super::*;
// `char::escape_debug`: a character as it is, or a longer sequence.
#[verifier::external_body]
pub proof fn esc_facts(c: char) ensures esc_of(c).len() >= 1, esc_of(c).len() == 1 ==> esc_of(c) == seq![c] { unimplemented!() }
// bytes of a character, and where the characters of a text start
pub uninterp spec fn width(c: char) -> nat;
pub open spec fn off(s: Seq<char>, k: int) -> nat
    decreases k,
{ if k <= 0 { 0 } else { off(s, k - 1) + width(s[k - 1]) } }
#[verifier::external_body]
pub proof fn width_facts(s: &str)
    ensures forall|c: char| 1 <= #[trigger] width(c) <= 4, off(s@, s@.len() as int) <= isize::MAX { unimplemented!() }
pub proof fn off_mono(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b,
    ensures off(s, a) <= off(s, b),
    decreases b - a,
{ if a < b { off_mono(s, a, b - 1); } }
#[verifier::external_body]
pub fn char_indices(s: &str) -> (r: &[(usize, char)])
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> (#[trigger] r@[i]).0 == off(s@, i) && r@[i].1 == s@[i],
{ unimplemented!() }
#[verifier::external_body]
pub struct Esc(());
impl Esc {
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.rest().len() { unimplemented!() }
    #[verifier::external_body] pub fn chars(&self) -> (r: &[char]) ensures r@ == self.rest() { unimplemented!() }
}
#[verifier::external_body]
pub fn escape_debug(c: char) -> (r: Esc) ensures r.rest() == esc_of(c) { unimplemented!() }
#[verifier::external_body]
pub fn len_utf8(c: char) -> (r: usize) ensures r == width(c) { unimplemented!() }
#[verifier::external_body]
pub fn encode_utf8(c: char, buf: &mut [u8; 4]) -> (r: &str) ensures r@ == seq![c] { unimplemented!() }
#[verifier::external_body]
pub fn byte_len(s: &str) -> (r: usize) ensures (r == 0) == (s@.len() == 0) { unimplemented!() }
// a slice at the bounds of characters (anything else panics)
#[verifier::external_body]
pub fn slice(s: &str, from: usize, to: usize, Ghost(a): Ghost<int>, Ghost(b): Ghost<int>) -> (r: &str)
    requires 0 <= a <= b <= s@.len(), from == off(s@, a), to == off(s@, b),
    ensures r@ == s@.subrange(a, b),
{ unimplemented!() }
#[verifier::external_body]
pub fn slice_from(s: &str, from: usize, Ghost(a): Ghost<int>) -> (r: &str)
    requires 0 <= a <= s@.len(), from == off(s@, a),
    ensures r@ == s@.subrange(a, s@.len() as int),
{ unimplemented!() }
// The closure that takes the pieces.
pub trait Out {
    spec fn got(&self) -> Seq<char>;
    spec fn broken(&self) -> bool;
    fn call(&mut self, s: &str) -> (r: fmt::Result)
        requires !(*old(self)).broken(),
        ensures r.is_err() == (*final(self)).broken(), r.is_ok() ==> (*final(self)).got() == (*old(self)).got() + s@;
}
pub struct Writer<F>(pub F);
pub proof fn escaped_app(a: Seq<char>, b: Seq<char>)
    ensures escaped(a + b) =~= escaped(a) + escaped(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); escaped_app(a, b.drop_last()); }
}
pub proof fn escaped_same(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> esc_of(#[trigger] s[i]).len() <= 1,
    ensures escaped(s) =~= s,
    decreases s.len(),
{
    if s.len() > 0 {
        escaped_same(s.drop_last());
        esc_facts(s.last());
        assert(s.drop_last() + seq![s.last()] =~= s);
    }
}
impl<F: Out> Writer<F> {
//@fn sval_fmt | token_write::write_escape_debug::{body}::{impl<F: FnMut(&str) -> fmt::Result> fmt::Write for Writer<F>}::write_str
//@sub for\s*\(i, c\)\s*in( it:)?\s*input\.char_indices\(\) => let ics_ = char_indices(input); for ic_ in\1 ics_
//@sub for c in( it:)?\s*esc\b => let es_ = esc.chars(); for c_ in\1 es_
//@sub c\.escape_debug\(\) => escape_debug(c)
//@sub c\.len_utf8\(\) => len_utf8(c)
//@sub c\.encode_utf8\(&mut buf\) => encode_utf8(c, &mut buf)
//@sub &input\[from\.\.i\] => slice(input, from, i, Ghost(a), Ghost(k))
//@sub &input\[from\.\.\] => slice_from(input, from, Ghost(a))
//@sub let flush = slice_from => proof { let n = input@.len() as int; assert(input@.take(a) + input@.subrange(a, n) =~= input@); escaped_app(input@.take(a), input@.subrange(a, n)); escaped_same(input@.subrange(a, n)); } let flush = slice_from
//@sub flush\.len\(\) => byte_len(flush)
//@sub \(self\.0\)\( => self.0.call(
//@sub let mut from = 0; => let mut from = 0; let ghost mut a: int = 0;
//@sub from = i \+ ([^;]*); => from = i + \1; proof { a = k + 1; }
//@spec
    requires !(*old(self)).0.broken(),
    ensures r.is_err() == (*final(self)).0.broken(), r.is_ok() ==> (*final(self)).0.got() =~= (*old(self)).0.got() + escaped(input@),
//@head
    proof { width_facts(input); }
//@loop 0
    invariant
        !self.0.broken(), 0 <= a <= it.index@ <= input@.len(), from == off(input@, a),
        ics_@.len() == input@.len(), forall|i: int| 0 <= i < input@.len() ==> (#[trigger] ics_@[i]).0 == off(input@, i) && ics_@[i].1 == input@[i],
        off(input@, input@.len() as int) <= isize::MAX, forall|c: char| 1 <= #[trigger] width(c) <= 4,
        forall|i: int| a <= i < it.index@ ==> esc_of(#[trigger] input@[i]).len() <= 1,
        self.0.got() =~= (*old(self)).0.got() + escaped(input@.take(a)),
//@loophead 0
    let (i, c) = *ic_;
    let ghost k = it.index@;
    proof {
        esc_facts(input@[k]);
        off_mono(input@, k + 1, input@.len() as int);
        assert(off(input@, k + 1) == off(input@, k) + width(input@[k]));
        let (p, q) = (input@.take(a), input@.subrange(a, k));
        assert(input@.take(k) =~= p + q);
        escaped_app(p, q);
        escaped_same(q);
        assert(input@.take(k + 1).drop_last() =~= input@.take(k));
        assert(esc_of(input@[k]).take(0) =~= Seq::<char>::empty());
        assert(esc_of(input@[k]).take(esc_of(input@[k]).len() as int) =~= esc_of(input@[k]));
    }
//@loop 1
    invariant
        !self.0.broken(),
        es_@ == esc_of(input@[k]), self.0.got() =~= (*old(self)).0.got() + escaped(input@.take(k)) + esc_of(input@[k]).take(it.index@),
//@loophead 1
    let c = *c_;
    proof { assert(es_@.take(it.index@ + 1) =~= es_@.take(it.index@) + seq![c]); }
//@end
}
//@fn sval_fmt | token_write::write_escape_debug
//@hoisted
//@sub input:\s*impl fmt::Display => input: &str
//@sub output:\s*impl FnMut\(&str\)\s*->\s*fmt::Result => output: impl Out, to: &mut Ghost<(Seq<char>, bool)>
//@sub Writer\(output\)\.write_fmt\(format_args!\("\{0\}", input\)\) => { let mut w_ = Writer(output); let r_ = w_.write_str(input); *to = Ghost((w_.0.got(), w_.0.broken())); r_ }
//@spec
    requires !output.broken(),
    ensures r.is_err() == (*final(to))@.1, r.is_ok() ==> (*final(to))@.0 == output.got() + escaped(input@),
//@end
}
// `write_escape_debug` hands these to its closure, in order, until it fails (its contract above);
// the closure, which borrows mutably, is inlined.
#[verifier::external_body]
pub fn escape_pieces<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures joined(r@) == escaped(s@) { unimplemented!() }
pub open spec fn joined(s: Seq<&str>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { joined(s.drop_last()) + s.last()@ } }

// ---------------------------------------------------------------- the provided methods
pub mod provided {
use super::*;
use super::fmttags as tags;
broadcast use {seq_assoc, seq_none, text_ch};
//@fn sval_fmt | token_write::TokenWrite::write_token
//@as default_write_token
//@free W
//@sub fn (default_\w+)<T: fmt::Display> => fn \1<W: TokenWrite + ?Sized, T: fmt::Display>
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls), is_text((*old(self)).t().mode),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Token(*tag, token.shown())),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_number
//@as default_write_number
//@free W
//@sub fn (default_\w+)<N: fmt::Display> => fn \1<W: TokenWrite + ?Sized, N: fmt::Display>
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Number(num.shown())),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_atom
//@as default_write_atom
//@free W
//@sub fn (default_\w+)<A: fmt::Display> => fn \1<W: TokenWrite + ?Sized, A: fmt::Display>
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Atom(atom.shown())),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_u8
//@as default_write_u8
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::U8(value)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_u16
//@as default_write_u16
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::U16(value)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_u32
//@as default_write_u32
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::U32(value)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_u64
//@as default_write_u64
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::U64(value)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_u128
//@as default_write_u128
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::U128(value)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_i8
//@as default_write_i8
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::I8(value)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_i16
//@as default_write_i16
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::I16(value)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_i32
//@as default_write_i32
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::I32(value)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_i64
//@as default_write_i64
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::I64(value)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_i128
//@as default_write_i128
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::I128(value)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_f32
//@as default_write_f32
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls), !((*old(self)).t().mode is Generic),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::F32(value)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_f64
//@as default_write_f64
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls), !((*old(self)).t().mode is Generic),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::F64(value)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_null
//@as default_write_null
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Null),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_bool
//@as default_write_bool
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Bool(value)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_type
//@as default_write_type
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Type(ty@)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_field
//@as default_write_field
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Field(field@)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_ident
//@as default_write_ident
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Ident(ident@)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_punct
//@as default_write_punct
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Punct(punct@)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_ws
//@as default_write_ws
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Ws(ws@)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_text_quote
//@as default_write_text_quote
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::TextQuote),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_text
//@as default_write_text
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@sub write_escape_debug\(text,\s*\|text\|\s*((?s:.*))\)\s*\}\s*$ => { let ghost t0 = self_.t(); let pieces_ = escape_pieces(text); let mut i_: usize = 0; while i_ < pieces_.len() invariant i_ <= pieces_@.len(), !self_.t().broken, !(t0.mode is Calls), self_.t() == (T { chars: t0.chars + ch(t0.mode, tags::TEXT, joined(pieces_@.take(i_ as int))), ..t0 }) { let text: &str = pieces_[i_]; proof { assert(pieces_@.take(i_ + 1).drop_last() =~= pieces_@.take(i_ as int)); ch_app(t0.mode, tags::TEXT, joined(pieces_@.take(i_ as int)), text@); } match \1 { Ok(()) => (), Err(e_) => return Err(e_) } i_ = i_ + 1; } proof { assert(pieces_@.take(pieces_@.len() as int) =~= pieces_@); } Ok(()) } }
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::Text(text@)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_map_begin
//@as default_write_map_begin
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::MapBegin),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_map_key_begin
//@as default_write_map_key_begin
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::MapKeyBegin(is_first)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_map_value_begin
//@as default_write_map_value_begin
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::MapValueBegin(is_first)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_map_end
//@as default_write_map_end
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::MapEnd(is_empty)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_record_type
//@as default_write_record_type
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::RecordType(ty@)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_record_begin
//@as default_write_record_begin
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::RecordBegin),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_record_value_begin
//@as default_write_record_value_begin
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::RecordValueBegin(field@, is_first)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_record_end
//@as default_write_record_end
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::RecordEnd(is_empty)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_seq_begin
//@as default_write_seq_begin
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::SeqBegin),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_seq_value_begin
//@as default_write_seq_value_begin
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::SeqValueBegin(is_first)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_seq_end
//@as default_write_seq_end
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::SeqEnd(is_empty)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_tuple_type
//@as default_write_tuple_type
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::TupleType(ty@)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_tuple_begin
//@as default_write_tuple_begin
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::TupleBegin),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_tuple_value_begin
//@as default_write_tuple_value_begin
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::TupleValueBegin(is_first)),
//@end
//@fn sval_fmt | token_write::TokenWrite::write_tuple_end
//@as default_write_tuple_end
//@free W
//@sub fn (default_\w+)\( => fn \1<W: TokenWrite + ?Sized>(
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@spec
    requires !(*old(self)).t().broken, !((*old(self)).t().mode is Calls),
    ensures wrote((*old(self)).t(), (*final(self)).t(), r, Call::TupleEnd(is_empty)),
//@end
}

// ---------------------------------------------------------------- the writers

pub mod refs {
use super::*;
impl<'a, W: Write + ?Sized> Write for &'a mut W {
    open spec fn t(&self) -> T { (**self).t() }
    fn write_str(&mut self, s: &str) -> fmt::Result { (**self).write_str(s) }
    fn write_char(&mut self, c: char) -> fmt::Result { (**self).write_char(c) }
    fn write_fmt(&mut self, args: fmt::Arguments<'_>) -> fmt::Result { (**self).write_fmt(args) }
}
//@impl sval_fmt | token_write::{impl<'a, W: TokenWrite + ?Sized> TokenWrite for &'a mut W}
//@trait sval_fmt | token_write::TokenWrite
//@end
}
//@use sval_fmt | writer::GenericWriter
//@use sval_fmt | writer::Writer
pub mod itoa {
    use super::*;
    pub trait Integer: Sized { spec fn num(self) -> int; }
    impl Integer for u8 { open spec fn num(self) -> int { self as int } }
    impl Integer for u16 { open spec fn num(self) -> int { self as int } }
    impl Integer for u32 { open spec fn num(self) -> int { self as int } }
    impl Integer for u64 { open spec fn num(self) -> int { self as int } }
    impl Integer for u128 { open spec fn num(self) -> int { self as int } }
    impl Integer for i8 { open spec fn num(self) -> int { self as int } }
    impl Integer for i16 { open spec fn num(self) -> int { self as int } }
    impl Integer for i32 { open spec fn num(self) -> int { self as int } }
    impl Integer for i64 { open spec fn num(self) -> int { self as int } }
    impl Integer for i128 { open spec fn num(self) -> int { self as int } }
    #[verifier::external_body] pub struct Buffer(());
    impl Buffer {
        #[verifier::external_body] pub fn new() -> Buffer { unimplemented!() }
        #[verifier::external_body] pub fn format<I: Integer>(&mut self, i: I) -> (r: &str) ensures r@ == dec(i.num()) { unimplemented!() }
    }
}
pub mod ryu {
    use super::*;
    pub trait Float: Sized { spec fn txt(self) -> Seq<char>; }
    impl Float for f32 { open spec fn txt(self) -> Seq<char> { ryu32(self) } }
    impl Float for f64 { open spec fn txt(self) -> Seq<char> { ryu64(self) } }
    #[verifier::external_body] pub struct Buffer(());
    impl Buffer {
        #[verifier::external_body] pub fn new() -> Buffer { unimplemented!() }
        #[verifier::external_body] pub fn format<I: Float>(&mut self, i: I) -> (r: &str) ensures r@ == i.txt() { unimplemented!() }
    }
}
pub mod generic {
use super::*;
use super::fmttags as tags;
broadcast use {seq_assoc, seq_none, text_ch};
//@impl sval_fmt | writer::{impl<W: Write> Write for GenericWriter<W>}
//@sub W: Write => W: TextWrite
//@ghost
    open spec fn t(&self) -> T { T { mode: Mode::Generic, ..self.0.t() } }
//@head *
    proof { self.0.plain(); }
//@end
//@impl sval_fmt | writer::{impl<W: Write> TokenWrite for GenericWriter<W>}
//@trait sval_fmt | token_write::TokenWrite
//@sub W: Write => W: TextWrite
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@sub write_escape_debug\(text,\s*\|text\|\s*((?s:.*))\)\s*\}\s*$ => { let ghost t0 = self.t(); let pieces_ = escape_pieces(text); let mut i_: usize = 0; while i_ < pieces_.len() invariant i_ <= pieces_@.len(), !self.t().broken, !(t0.mode is Calls), self.t() == (T { chars: t0.chars + ch(t0.mode, tags::TEXT, joined(pieces_@.take(i_ as int))), ..t0 }) { let text: &str = pieces_[i_]; proof { assert(pieces_@.take(i_ + 1).drop_last() =~= pieces_@.take(i_ as int)); ch_app(t0.mode, tags::TEXT, joined(pieces_@.take(i_ as int)), text@); } match \1 { Ok(()) => (), Err(e_) => return Err(e_) } i_ = i_ + 1; } proof { assert(pieces_@.take(pieces_@.len() as int) =~= pieces_@); } Ok(()) } }
//@end
}
pub mod formatter {
use super::*;
use super::fmttags as tags;
broadcast use {seq_assoc, seq_none, text_ch};
//@impl sval_fmt | writer::{impl<'a> TokenWrite for fmt::Formatter<'a>}
//@trait sval_fmt | token_write::TokenWrite
//@sub format_args!\(\"\{0\}\",\s*(\w+)\) => fmt::arguments(\1)
//@sub write_escape_debug\(text,\s*\|text\|\s*((?s:.*))\)\s*\}\s*$ => { let ghost t0 = self.t(); let pieces_ = escape_pieces(text); let mut i_: usize = 0; while i_ < pieces_.len() invariant i_ <= pieces_@.len(), !self.t().broken, !(t0.mode is Calls), self.t() == (T { chars: t0.chars + ch(t0.mode, tags::TEXT, joined(pieces_@.take(i_ as int))), ..t0 }) { let text: &str = pieces_[i_]; proof { assert(pieces_@.take(i_ + 1).drop_last() =~= pieces_@.take(i_ as int)); ch_app(t0.mode, tags::TEXT, joined(pieces_@.take(i_ as int)), text@); } match \1 { Ok(()) => (), Err(e_) => return Err(e_) } i_ = i_ + 1; } proof { assert(pieces_@.take(pieces_@.len() as int) =~= pieces_@); } Ok(()) } }
//@end
}

// ---------------------------------------------------------------- the stream

// Whether nothing was written yet at this depth, and whether text is a number's.
pub ghost struct X { pub first: bool, pub number: bool, pub t: T }
pub open spec fn call(x: X, c: Call) -> X { X { t: after(x.t, c), ..x } }
pub open spec fn bytes(x: X, b: Seq<u8>) -> X
    decreases b.len(),
{
    if b.len() == 0 { x } else {
        let y = bytes(x, b.drop_last());
        X { first: false, ..call(call(y, Call::SeqValueBegin(y.first)), Call::U8(b.last())) }
    }
}
pub open spec fn is_number(t: Option<Tag>) -> bool { t == Some(fmttags::NUMBER) }
pub open spec fn name(x: X, l: Option<LabelV>) -> X {
    X { first: false, ..(match l { Some(l) => call(x, Call::Type(l.text)), None => call(x, Call::Null) }) }
}
pub open spec fn act(x: X, e: Ev) -> X {
    let start = X { first: true, number: false, ..x };
    match e {
        Ev::Null => call(x, Call::Null),
        Ev::Bool(b) => call(x, Call::Bool(b)),
        Ev::TextBegin(_) => if x.number { x } else { call(x, Call::TextQuote) },
        Ev::TextFragment(s, _) => if x.number { call(x, Call::Number(s)) } else { call(x, Call::Text(s)) },
        Ev::TextEnd => if x.number { x } else { call(x, Call::TextQuote) },
        Ev::BinaryBegin(_) => call(start, Call::SeqBegin),
        Ev::BinaryFragment(b, _) => bytes(x, b),
        Ev::BinaryEnd => X { first: false, ..call(x, Call::SeqEnd(x.first)) },
        Ev::U8(v) => call(x, Call::U8(v)),
        Ev::U16(v) => call(x, Call::U16(v)),
        Ev::U32(v) => call(x, Call::U32(v)),
        Ev::U64(v) => call(x, Call::U64(v)),
        Ev::U128(v) => call(x, Call::U128(v)),
        Ev::I8(v) => call(x, Call::I8(v)),
        Ev::I16(v) => call(x, Call::I16(v)),
        Ev::I32(v) => call(x, Call::I32(v)),
        Ev::I64(v) => call(x, Call::I64(v)),
        Ev::I128(v) => call(x, Call::I128(v)),
        Ev::F32(v) => call(x, Call::F32(v)),
        Ev::F64(v) => call(x, Call::F64(v)),
        Ev::MapBegin(_) => call(start, Call::MapBegin),
        Ev::MapKeyBegin => call(x, Call::MapKeyBegin(x.first)),
        Ev::MapKeyEnd => call(x, Call::MapValueBegin(x.first)),
        Ev::MapValueBegin => x,
        Ev::MapValueEnd => X { first: false, ..x },
        Ev::MapEnd => X { first: false, ..call(x, Call::MapEnd(x.first)) },
        Ev::SeqBegin(_) => call(start, Call::SeqBegin),
        Ev::SeqValueBegin => call(x, Call::SeqValueBegin(x.first)),
        Ev::SeqValueEnd => X { first: false, ..x },
        Ev::SeqEnd => X { first: false, ..call(x, Call::SeqEnd(x.first)) },
        Ev::EnumBegin(_, _, _) => X { first: true, ..x },
        Ev::EnumEnd(_, l, _) => if x.first { name(x, l) } else { x },
        Ev::TaggedBegin(t, l, _) => {
            let y = X { first: false, number: is_number(t) || x.number, ..x };
            match l { Some(l) => call(call(y, Call::TupleType(l.text)), Call::TupleBegin), None => y }
        },
        Ev::TaggedEnd(t, l, _) => {
            let y = X { number: !is_number(t) && x.number, ..x };
            if l is Some { call(y, Call::TupleEnd(false)) } else { y }
        },
        Ev::Tag(_, l, _) => name(x, l),
        Ev::TagHint(_) => x,
        Ev::RecordBegin(_, l, _, _) => call(match l { Some(l) => call(start, Call::RecordType(l.text)), None => start }, Call::RecordBegin),
        Ev::RecordValueBegin(_, l) => call(x, Call::RecordValueBegin(l.text, x.first)),
        Ev::RecordValueEnd(_, _) => X { first: false, ..x },
        Ev::RecordEnd(_, _, _) => X { first: false, ..call(x, Call::RecordEnd(x.first)) },
        Ev::TupleBegin(_, l, _, _) => call(match l { Some(l) => call(start, Call::TupleType(l.text)), None => start }, Call::TupleBegin),
        Ev::TupleValueBegin(_, _) => call(x, Call::TupleValueBegin(x.first)),
        Ev::TupleValueEnd(_, _) => X { first: false, ..x },
        Ev::TupleEnd(_, _, _) => X { first: false, ..call(x, Call::TupleEnd(x.first)) },
        Ev::RecordTupleBegin(_, l, _, _) => call(match l { Some(l) => call(start, Call::RecordType(l.text)), None => start }, Call::RecordBegin),
        Ev::RecordTupleValueBegin(_, l, _) => call(x, Call::RecordValueBegin(l.text, x.first)),
        Ev::RecordTupleValueEnd(_, _, _) => X { first: false, ..x },
        Ev::RecordTupleEnd(_, _, _) => X { first: false, ..call(x, Call::RecordEnd(x.first)) },
    }
}
pub open spec fn run(x: X, evs: Seq<Ev>) -> X
    decreases evs.len(),
{ if evs.len() == 0 { x } else { act(run(x, evs.drop_last()), evs.last()) } }
pub open spec fn acted(old: X, new: X, r: sval::Result, e: Ev) -> bool {
    &&& r.is_err() == new.t.broken
    &&& r.is_ok() ==> new == act(old, e)
}
pub open spec fn acted_all(old: X, new: X, r: sval::Result, evs: Seq<Ev>) -> bool {
    &&& r.is_err() ==> new.t.broken
    &&& r.is_ok() ==> new == run(old, evs)
}
pub trait Value { spec fn evs(&self) -> Seq<Ev>; }
pub trait Stream<'sval> {
    spec fn x(&self) -> X;

    fn value<V: Value + ?Sized>(&mut self, v: &'sval V) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted_all((*old(self)).x(), (*final(self)).x(), r, v.evs());

    fn value_computed<V: Value + ?Sized>(&mut self, v: &V) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted_all((*old(self)).x(), (*final(self)).x(), r, v.evs());

    fn null(&mut self) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::Null);

    fn bool(&mut self, value: bool) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::Bool(value));

    fn text_begin(&mut self, num_bytes: Option<usize>) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::TextBegin(num_bytes));

    fn text_fragment(&mut self, fragment: &'sval str) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::TextFragment(fragment@, true));

    fn text_fragment_computed(&mut self, fragment: &str) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::TextFragment(fragment@, false));

    fn text_end(&mut self) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::TextEnd);

    fn binary_begin(&mut self, num_bytes: Option<usize>) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::BinaryBegin(num_bytes));

    fn binary_fragment(&mut self, fragment: &'sval [u8]) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::BinaryFragment(fragment@, true));

    fn binary_fragment_computed(&mut self, fragment: &[u8]) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::BinaryFragment(fragment@, false));

    fn binary_end(&mut self) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::BinaryEnd);

    fn u8(&mut self, value: u8) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::U8(value));

    fn u16(&mut self, value: u16) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::U16(value));

    fn u32(&mut self, value: u32) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::U32(value));

    fn u64(&mut self, value: u64) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::U64(value));

    fn u128(&mut self, value: u128) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::U128(value));

    fn i8(&mut self, value: i8) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::I8(value));

    fn i16(&mut self, value: i16) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::I16(value));

    fn i32(&mut self, value: i32) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::I32(value));

    fn i64(&mut self, value: i64) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::I64(value));

    fn i128(&mut self, value: i128) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::I128(value));

    fn f32(&mut self, value: f32) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::F32(value));

    fn f64(&mut self, value: f64) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::F64(value));

    fn map_begin(&mut self, num_entries: Option<usize>) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::MapBegin(num_entries));

    fn map_key_begin(&mut self) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::MapKeyBegin);

    fn map_key_end(&mut self) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::MapKeyEnd);

    fn map_value_begin(&mut self) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::MapValueBegin);

    fn map_value_end(&mut self) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::MapValueEnd);

    fn map_end(&mut self) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::MapEnd);

    fn seq_begin(&mut self, num_entries: Option<usize>) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::SeqBegin(num_entries));

    fn seq_value_begin(&mut self) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::SeqValueBegin);

    fn seq_value_end(&mut self) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::SeqValueEnd);

    fn seq_end(&mut self) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::SeqEnd);

    fn enum_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::EnumBegin(ot(tag), ol(label), oi(index)));

    fn enum_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::EnumEnd(ot(tag), ol(label), oi(index)));

    fn tagged_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::TaggedBegin(ot(tag), ol(label), oi(index)));

    fn tagged_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::TaggedEnd(ot(tag), ol(label), oi(index)));

    fn tag(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::Tag(ot(tag), ol(label), oi(index)));

    fn tag_hint(&mut self, tag: &Tag) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::TagHint(*tag));

    fn record_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>, num_entries: Option<usize>) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries));

    fn record_value_begin(&mut self, tag: Option<&Tag>, label: &Label) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::RecordValueBegin(ot(tag), label@));

    fn record_value_end(&mut self, tag: Option<&Tag>, label: &Label) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::RecordValueEnd(ot(tag), label@));

    fn record_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::RecordEnd(ot(tag), ol(label), oi(index)));

    fn tuple_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>, num_entries: Option<usize>) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries));

    fn tuple_value_begin(&mut self, tag: Option<&Tag>, index: &Index) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::TupleValueBegin(ot(tag), index@));

    fn tuple_value_end(&mut self, tag: Option<&Tag>, index: &Index) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::TupleValueEnd(ot(tag), index@));

    fn tuple_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::TupleEnd(ot(tag), ol(label), oi(index)));

    fn record_tuple_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>, num_entries: Option<usize>) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::RecordTupleBegin(ot(tag), ol(label), oi(index), num_entries));

    fn record_tuple_value_begin(&mut self, tag: Option<&Tag>, label: &Label, index: &Index) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::RecordTupleValueBegin(ot(tag), label@, index@));

    fn record_tuple_value_end(&mut self, tag: Option<&Tag>, label: &Label, index: &Index) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::RecordTupleValueEnd(ot(tag), label@, index@));

    fn record_tuple_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result)
        requires !(*old(self)).x().t.broken,
        ensures acted((*old(self)).x(), (*final(self)).x(), r, Ev::RecordTupleEnd(ot(tag), ol(label), oi(index)));

}


pub mod default_stream {
use super::*;
//@fn sval | stream::default_stream::text_fragment
//@spec
    requires !(*old(stream)).x().t.broken,
    ensures acted((*old(stream)).x(), (*final(stream)).x(), r, Ev::TextFragment(fragment@, true)),
//@end
//@fn sval | stream::default_stream::binary_fragment
//@spec
    requires !(*old(stream)).x().t.broken,
    ensures acted((*old(stream)).x(), (*final(stream)).x(), r, Ev::BinaryFragment(fragment@, true)),
//@end
//@fn sval | stream::default_stream::tag_hint
//@spec
    requires !(*old(stream)).x().t.broken,
    ensures acted((*old(stream)).x(), (*final(stream)).x(), r, Ev::TagHint(*tag)),
//@end
//@fn sval | stream::default_stream::record_tuple_begin
//@spec
    requires !(*old(stream)).x().t.broken,
    ensures acted((*old(stream)).x(), (*final(stream)).x(), r, Ev::RecordTupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@end
//@fn sval | stream::default_stream::record_tuple_value_begin
//@spec
    requires !(*old(stream)).x().t.broken,
    ensures acted((*old(stream)).x(), (*final(stream)).x(), r, Ev::RecordTupleValueBegin(ot(tag), label@, index@)),
//@end
//@fn sval | stream::default_stream::record_tuple_value_end
//@spec
    requires !(*old(stream)).x().t.broken,
    ensures acted((*old(stream)).x(), (*final(stream)).x(), r, Ev::RecordTupleValueEnd(ot(tag), label@, index@)),
//@end
//@fn sval | stream::default_stream::record_tuple_end
//@spec
    requires !(*old(stream)).x().t.broken,
    ensures acted((*old(stream)).x(), (*final(stream)).x(), r, Ev::RecordTupleEnd(ot(tag), ol(label), oi(index))),
//@end
#[verifier::external_body]
pub fn value<'sval, S: Stream<'sval> + ?Sized, V: Value + ?Sized>(stream: &mut S, v: &'sval V) -> (r: Result)
    requires !(*old(stream)).x().t.broken,
    ensures acted_all((*old(stream)).x(), (*final(stream)).x(), r, v.evs()),
{ unimplemented!() }
#[verifier::external_body]
pub fn value_computed<'sval, S: Stream<'sval> + ?Sized, V: Value + ?Sized>(stream: &mut S, v: &V) -> (r: Result)
    requires !(*old(stream)).x().t.broken,
    ensures acted_all((*old(stream)).x(), (*final(stream)).x(), r, v.evs()),
{ unimplemented!() }
}
pub mod writer {
use super::*;
use super::fmttags as tags;
impl<W> Writer<W> {
//@fn sval_fmt | writer::{impl<W> Writer<W>}::new
//@spec
    ensures r.is_current_depth_empty, !r.is_number, r.out == out,
//@end
}
//@impl sval_fmt | writer::{impl<'sval, W: TokenWrite> sval::Stream<'sval> for Writer<W>}
//@trait sval | stream::Stream
//@freefill Writer<W>
//@sub \.map_err\(\|_\|\s*sval::Error::new\(\)\) => .map_err(|_e: fmt::Error| sval::Error::new())
//@sub (\w+) == Some\(&((?:sval::)?tags::\w+)\) => is_tag(\1, &\2)
//@sub fn (inherited_\w+)(?:<(?!'sval)|(?=\()) => fn \1<'sval, W: TokenWrite, 
//@sub (fn inherited_\w+<'sval, W: TokenWrite),\s*\( => \1>(
//@ghost
    open spec fn x(&self) -> X { X { first: self.is_current_depth_empty, number: self.is_number, t: self.out.t() } }
//@loop 0 binary_fragment_computed
    invariant
        !self.out.t().broken, self.x() == bytes((*old(self)).x(), fragment@.take(it.index@)),
//@looptail 0 binary_fragment_computed
    proof { assert(fragment@.take(it.index@ + 1).drop_last() =~= fragment@.take(it.index@)); }
//@head binary_fragment_computed
    proof { assert(fragment@.take(fragment@.len() as int) =~= fragment@); }
//@freespec null
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::Null),
//@freespec bool
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::Bool(value)),
//@freespec text_begin
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::TextBegin(num_bytes)),
//@freespec text_fragment
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::TextFragment(fragment@, true)),
//@freespec text_fragment_computed
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::TextFragment(fragment@, false)),
//@freespec text_end
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::TextEnd),
//@freespec binary_begin
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::BinaryBegin(num_bytes)),
//@freespec binary_fragment
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::BinaryFragment(fragment@, true)),
//@freespec binary_fragment_computed
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::BinaryFragment(fragment@, false)),
//@freespec binary_end
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::BinaryEnd),
//@freespec u8
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::U8(value)),
//@freespec u16
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::U16(value)),
//@freespec u32
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::U32(value)),
//@freespec u64
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::U64(value)),
//@freespec u128
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::U128(value)),
//@freespec i8
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::I8(value)),
//@freespec i16
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::I16(value)),
//@freespec i32
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::I32(value)),
//@freespec i64
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::I64(value)),
//@freespec i128
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::I128(value)),
//@freespec f32
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::F32(value)),
//@freespec f64
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::F64(value)),
//@freespec map_begin
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::MapBegin(num_entries)),
//@freespec map_key_begin
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::MapKeyBegin),
//@freespec map_key_end
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::MapKeyEnd),
//@freespec map_value_begin
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::MapValueBegin),
//@freespec map_value_end
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::MapValueEnd),
//@freespec map_end
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::MapEnd),
//@freespec seq_begin
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::SeqBegin(num_entries)),
//@freespec seq_value_begin
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::SeqValueBegin),
//@freespec seq_value_end
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::SeqValueEnd),
//@freespec seq_end
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::SeqEnd),
//@freespec enum_begin
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::EnumBegin(ot(tag), ol(label), oi(index))),
//@freespec enum_end
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::EnumEnd(ot(tag), ol(label), oi(index))),
//@freespec tagged_begin
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::TaggedBegin(ot(tag), ol(label), oi(index))),
//@freespec tagged_end
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::TaggedEnd(ot(tag), ol(label), oi(index))),
//@freespec tag
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::Tag(ot(tag), ol(label), oi(index))),
//@freespec tag_hint
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::TagHint(*tag)),
//@freespec record_begin
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec record_value_begin
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::RecordValueBegin(ot(tag), label@)),
//@freespec record_value_end
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::RecordValueEnd(ot(tag), label@)),
//@freespec record_end
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::RecordEnd(ot(tag), ol(label), oi(index))),
//@freespec tuple_begin
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec tuple_value_begin
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::TupleValueBegin(ot(tag), index@)),
//@freespec tuple_value_end
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::TupleValueEnd(ot(tag), index@)),
//@freespec tuple_end
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::TupleEnd(ot(tag), ol(label), oi(index))),
//@freespec record_tuple_begin
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::RecordTupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@freespec record_tuple_value_begin
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::RecordTupleValueBegin(ot(tag), label@, index@)),
//@freespec record_tuple_value_end
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::RecordTupleValueEnd(ot(tag), label@, index@)),
//@freespec record_tuple_end
    requires !(*old(self_)).x().t.broken,
    ensures acted((*old(self_)).x(), (*final(self_)).x(), r, Ev::RecordTupleEnd(ot(tag), ol(label), oi(index))),
//@freespec value
    requires !(*old(self_)).x().t.broken,
    ensures acted_all((*old(self_)).x(), (*final(self_)).x(), r, v.evs()),
//@freespec value_computed
    requires !(*old(self_)).x().t.broken,
    ensures acted_all((*old(self_)).x(), (*final(self_)).x(), r, v.evs()),
//@end
}

// ---------------------------------------------------------------- whole values

// Every value of the data model: a tree of events.  `Mark` holds the tag, label and index of an element.
pub ghost struct Mark { pub g: Option<Tag>, pub l: LabelV, pub i: IndexV }
pub ghost enum Of { Seq, Tuple, Record, RecordTuple }
pub ghost enum V {
    Leaf(Ev),
    Text(Option<usize>, Seq<(Seq<char>, bool)>),
    Binary(Option<usize>, Seq<(Seq<u8>, bool)>),
    Map(Option<usize>, Ents),
    List(Of, Option<Tag>, Option<LabelV>, Option<IndexV>, Option<usize>, Items),
    Tag(Option<Tag>, Option<LabelV>, Option<IndexV>),
    Tagged(Option<Tag>, Option<LabelV>, Option<IndexV>, Kid),
    Enum(Option<Tag>, Option<LabelV>, Option<IndexV>, Kid),
}
pub ghost enum Kid { Nil, Some(Box<V>) }
pub ghost enum Items { Nil, Snoc(Box<Items>, Mark, Box<V>) }
pub ghost enum Ents { Nil, Snoc(Box<Ents>, Box<V>, Box<V>) }
pub open spec fn scalar(e: Ev) -> bool {
    e is Null || e is Bool || e is U8 || e is U16 || e is U32 || e is U64 || e is U128 || e is I8 || e is I16 || e is I32 || e is I64 || e is I128 || e is F32 || e is F64
}
// An enum holds one of its variants, or nothing.
pub open spec fn sound(v: V) -> bool
    decreases v,
{
    match v {
        V::Leaf(e) => scalar(e),
        V::Map(_, l) => ents_sound(l),
        V::List(_, _, _, _, _, l) => items_sound(l),
        V::Tagged(_, _, _, k) => match k { Kid::Nil => true, Kid::Some(c) => sound(*c) },
        V::Enum(_, _, _, k) => match k { Kid::Nil => true, Kid::Some(c) => sound(*c) && !((*c) is Leaf) && !((*c) is Text) },
        _ => true,
    }
}
pub open spec fn items_sound(l: Items) -> bool
    decreases l,
{ match l { Items::Nil => true, Items::Snoc(r, _, v) => items_sound(*r) && sound(*v) } }
pub open spec fn ents_sound(l: Ents) -> bool
    decreases l,
{ match l { Ents::Nil => true, Ents::Snoc(r, k, v) => ents_sound(*r) && sound(*k) && sound(*v) } }

// -- its events
pub open spec fn opens(o: Of, m: Mark) -> Ev {
    match o { Of::Seq => Ev::SeqValueBegin, Of::Tuple => Ev::TupleValueBegin(m.g, m.i), Of::Record => Ev::RecordValueBegin(m.g, m.l), Of::RecordTuple => Ev::RecordTupleValueBegin(m.g, m.l, m.i) }
}
pub open spec fn closes(o: Of, m: Mark) -> Ev {
    match o { Of::Seq => Ev::SeqValueEnd, Of::Tuple => Ev::TupleValueEnd(m.g, m.i), Of::Record => Ev::RecordValueEnd(m.g, m.l), Of::RecordTuple => Ev::RecordTupleValueEnd(m.g, m.l, m.i) }
}
pub open spec fn begins(o: Of, g: Option<Tag>, l: Option<LabelV>, i: Option<IndexV>, z: Option<usize>) -> Ev {
    match o { Of::Seq => Ev::SeqBegin(z), Of::Tuple => Ev::TupleBegin(g, l, i, z), Of::Record => Ev::RecordBegin(g, l, i, z), Of::RecordTuple => Ev::RecordTupleBegin(g, l, i, z) }
}
pub open spec fn ends(o: Of, g: Option<Tag>, l: Option<LabelV>, i: Option<IndexV>) -> Ev {
    match o { Of::Seq => Ev::SeqEnd, Of::Tuple => Ev::TupleEnd(g, l, i), Of::Record => Ev::RecordEnd(g, l, i), Of::RecordTuple => Ev::RecordTupleEnd(g, l, i) }
}
pub open spec fn evs(v: V) -> Seq<Ev>
    decreases v,
{
    match v {
        V::Leaf(e) => seq![e],
        V::Text(z, f) => seq![Ev::TextBegin(z)] + f.map_values(|p: (Seq<char>, bool)| Ev::TextFragment(p.0, p.1)) + seq![Ev::TextEnd],
        V::Binary(z, f) => seq![Ev::BinaryBegin(z)] + f.map_values(|p: (Seq<u8>, bool)| Ev::BinaryFragment(p.0, p.1)) + seq![Ev::BinaryEnd],
        V::Map(z, l) => seq![Ev::MapBegin(z)] + ents_evs(l) + seq![Ev::MapEnd],
        V::List(o, g, l, i, z, vs) => seq![begins(o, g, l, i, z)] + items_evs(o, vs) + seq![ends(o, g, l, i)],
        V::Tag(g, l, i) => seq![Ev::Tag(g, l, i)],
        V::Tagged(g, l, i, k) => seq![Ev::TaggedBegin(g, l, i)] + (match k { Kid::Nil => Seq::empty(), Kid::Some(c) => evs(*c) }) + seq![Ev::TaggedEnd(g, l, i)],
        V::Enum(g, l, i, k) => seq![Ev::EnumBegin(g, l, i)] + (match k { Kid::Nil => Seq::empty(), Kid::Some(c) => evs(*c) }) + seq![Ev::EnumEnd(g, l, i)],
    }
}
pub open spec fn items_evs(o: Of, l: Items) -> Seq<Ev>
    decreases l,
{ match l { Items::Nil => Seq::empty(), Items::Snoc(r, m, v) => items_evs(o, *r).push(opens(o, m)) + evs(*v).push(closes(o, m)) } }
pub open spec fn ents_evs(l: Ents) -> Seq<Ev>
    decreases l,
{ match l { Ents::Nil => Seq::empty(), Ents::Snoc(r, k, v) => ents_evs(*r).push(Ev::MapKeyBegin) + evs(*k).push(Ev::MapKeyEnd).push(Ev::MapValueBegin) + evs(*v).push(Ev::MapValueEnd) } }

// -- its text, as the calls that write it.  `n`: inside a value tagged as a number.
pub open spec fn name_call(l: Option<LabelV>) -> Call { match l { Some(l) => Call::Type(l.text), None => Call::Null } }
pub open spec fn leaf_call(e: Ev) -> Call {
    match e {
        Ev::Bool(b) => Call::Bool(b),
        Ev::U8(v) => Call::U8(v),
        Ev::U16(v) => Call::U16(v),
        Ev::U32(v) => Call::U32(v),
        Ev::U64(v) => Call::U64(v),
        Ev::U128(v) => Call::U128(v),
        Ev::I8(v) => Call::I8(v),
        Ev::I16(v) => Call::I16(v),
        Ev::I32(v) => Call::I32(v),
        Ev::I64(v) => Call::I64(v),
        Ev::I128(v) => Call::I128(v),
        Ev::F32(v) => Call::F32(v),
        Ev::F64(v) => Call::F64(v),
        _ => Call::Null,
    }
}
pub open spec fn flat<A>(f: Seq<(Seq<A>, bool)>) -> Seq<A>
    decreases f.len(),
{ if f.len() == 0 { Seq::empty() } else { flat(f.drop_last()) + f.last().0 } }
pub open spec fn byte_calls(b: Seq<u8>) -> Seq<Call>
    decreases b.len(),
{ if b.len() == 0 { Seq::empty() } else { byte_calls(b.drop_last()).push(Call::SeqValueBegin(b.len() == 1)).push(Call::U8(b.last())) } }
pub open spec fn list_begin(o: Of, l: Option<LabelV>) -> Seq<Call> {
    match o {
        Of::Seq => seq![Call::SeqBegin],
        Of::Tuple => match l { Some(l) => seq![Call::TupleType(l.text), Call::TupleBegin], None => seq![Call::TupleBegin] },
        _ => match l { Some(l) => seq![Call::RecordType(l.text), Call::RecordBegin], None => seq![Call::RecordBegin] },
    }
}
pub open spec fn item_begin(o: Of, m: Mark, first: bool) -> Call {
    match o { Of::Seq => Call::SeqValueBegin(first), Of::Tuple => Call::TupleValueBegin(first), _ => Call::RecordValueBegin(m.l.text, first) }
}
pub open spec fn list_end(o: Of, empty: bool) -> Call {
    match o { Of::Seq => Call::SeqEnd(empty), Of::Tuple => Call::TupleEnd(empty), _ => Call::RecordEnd(empty) }
}
pub open spec fn render(v: V, n: bool) -> Seq<Call>
    decreases v,
{
    match v {
        V::Leaf(e) => seq![leaf_call(e)],
        V::Text(_, f) => if n { f.map_values(|p: (Seq<char>, bool)| Call::Number(p.0)) }
            else { seq![Call::TextQuote] + f.map_values(|p: (Seq<char>, bool)| Call::Text(p.0)) + seq![Call::TextQuote] },
        V::Binary(_, f) => seq![Call::SeqBegin] + byte_calls(flat(f)) + seq![Call::SeqEnd(flat(f).len() == 0)],
        V::Map(_, l) => seq![Call::MapBegin] + render_ents(l) + seq![Call::MapEnd(l is Nil)],
        V::List(o, _, l, _, _, vs) => list_begin(o, l) + render_items(o, vs) + seq![list_end(o, vs is Nil)],
        V::Tag(_, l, _) => seq![name_call(l)],
        V::Tagged(g, l, _, k) => {
            let inner = match k { Kid::Nil => Seq::empty(), Kid::Some(c) => render(*c, n || is_number(g)) };
            match l { Some(l) => seq![Call::TupleType(l.text), Call::TupleBegin] + inner + seq![Call::TupleEnd(false)], None => inner }
        },
        V::Enum(_, l, _, k) => match k { Kid::Nil => seq![name_call(l)], Kid::Some(c) => render(*c, n) },
    }
}
pub open spec fn render_items(o: Of, l: Items) -> Seq<Call>
    decreases l,
{ match l { Items::Nil => Seq::empty(), Items::Snoc(r, m, v) => render_items(o, *r).push(item_begin(o, m, *r is Nil)) + render(*v, false) } }
// (the flag that a map's value begins with, which only a custom writer sees, says whether anything
// but a leaf or text was written at this depth)
pub open spec fn render_ents(l: Ents) -> Seq<Call>
    decreases l,
{
    match l {
        Ents::Nil => Seq::empty(),
        Ents::Snoc(r, k, v) => render_ents(*r).push(Call::MapKeyBegin(*r is Nil)) + render(*k, false).push(Call::MapValueBegin(*r is Nil && keeps(*k))) + render(*v, false),
    }
}
pub open spec fn keeps(v: V) -> bool { v is Leaf || v is Text }
// whether text that follows, still inside the same tags, is a number's
pub open spec fn left(v: V, n: bool) -> bool
    decreases v,
{
    match v {
        V::Map(_, _) => false, V::List(_, _, _, _, _, _) => false, V::Binary(_, _) => false,
        V::Tagged(g, _, _, k) => match k { Kid::Nil => !is_number(g) && n, Kid::Some(c) => !is_number(g) && left(*c, n) },
        V::Enum(_, _, _, k) => match k { Kid::Nil => n, Kid::Some(c) => left(*c, n) },
        _ => n,
    }
}
pub proof fn left_false(v: V)
    ensures !left(v, false),
    decreases v,
{
    match v {
        V::Tagged(g, _, _, k) => match k { Kid::Nil => {}, Kid::Some(c) => left_false(*c) },
        V::Enum(_, _, _, k) => match k { Kid::Nil => {}, Kid::Some(c) => left_false(*c) },
        _ => {},
    }
}

// -- the events write the text
pub open spec fn all(t: T, c: Seq<Call>) -> T
    decreases c.len(),
{ if c.len() == 0 { t } else { after(all(t, c.drop_last()), c.last()) } }
pub proof fn all_push(t: T, a: Seq<Call>, c: Call)
    ensures all(t, a.push(c)) == after(all(t, a), c),
{ hide(after); assert(a.push(c).drop_last() =~= a); }
pub proof fn all_app(t: T, a: Seq<Call>, b: Seq<Call>)
    ensures all(t, a + b) == all(all(t, a), b),
    decreases b.len(),
{ hide(after);
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); all_app(t, a, b.drop_last()); }
}
pub proof fn all_one(t: T, c: Call)
    ensures all(t, seq![c]) == after(t, c),
{ hide(after); hide(all);
    let none = Seq::<Call>::empty();
    assert(seq![c] =~= none.push(c));
    all_push(t, none, c);
    all_none(t);
}
pub proof fn run_push(x: X, a: Seq<Ev>, e: Ev)
    ensures run(x, a.push(e)) == act(run(x, a), e),
{ hide(act); assert(a.push(e).drop_last() =~= a); }
pub proof fn run_one(x: X, e: Ev)
    ensures run(x, seq![e]) == act(x, e),
{ hide(act); hide(run);
    let none = Seq::<Ev>::empty();
    assert(seq![e] =~= none.push(e));
    run_push(x, none, e);
    run_none(x);
}
pub proof fn run_app(x: X, a: Seq<Ev>, b: Seq<Ev>)
    ensures run(x, a + b) == run(run(x, a), b),
    decreases b.len(),
{ hide(act);
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); run_app(x, a, b.drop_last()); }
}
pub proof fn run_between(x: X, a: Ev, b: Seq<Ev>, c: Ev)
    ensures run(x, seq![a] + b + seq![c]) == act(run(act(x, a), b), c),
{ hide(act); hide(run);
    assert(seq![a] + b + seq![c] =~= (seq![a] + b).push(c));
    run_push(x, seq![a] + b, c);
    run_app(x, seq![a], b);
    run_one(x, a);
}
pub proof fn bytes_run(x: X, b: Seq<u8>)
    ensures bytes(x, b).t == all(x.t, if x.first { byte_calls(b) } else { later(b) }), bytes(x, b).first == (x.first && b.len() == 0), bytes(x, b).number == x.number,
    decreases b.len(),
{
    if b.len() > 0 {
        bytes_run(x, b.drop_last());
        let c = if x.first { byte_calls(b.drop_last()) } else { later(b.drop_last()) };
        all_push(x.t, c, Call::SeqValueBegin(x.first && b.len() == 1));
        all_push(x.t, c.push(Call::SeqValueBegin(x.first && b.len() == 1)), Call::U8(b.last()));
    }
}
pub open spec fn later(b: Seq<u8>) -> Seq<Call>
    decreases b.len(),
{ if b.len() == 0 { Seq::empty() } else { later(b.drop_last()).push(Call::SeqValueBegin(false)).push(Call::U8(b.last())) } }
pub proof fn bytes_app(x: X, a: Seq<u8>, b: Seq<u8>)
    ensures bytes(bytes(x, a), b) == bytes(x, a + b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); bytes_app(x, a, b.drop_last()); }
}
pub proof fn binary_run(x: X, f: Seq<(Seq<u8>, bool)>)
    ensures run(x, f.map_values(|p: (Seq<u8>, bool)| Ev::BinaryFragment(p.0, p.1))) == bytes(x, flat(f)),
    decreases f.len(),
{
    let g = |p: (Seq<u8>, bool)| Ev::BinaryFragment(p.0, p.1);
    if f.len() > 0 {
        assert(f.map_values(g).drop_last() =~= f.drop_last().map_values(g));
        binary_run(x, f.drop_last());
        bytes_app(x, flat(f.drop_last()), f.last().0);
    }
}
pub proof fn text_run(x: X, f: Seq<(Seq<char>, bool)>)
    ensures run(x, f.map_values(|p: (Seq<char>, bool)| Ev::TextFragment(p.0, p.1))) == (X { t: all(x.t, if x.number { f.map_values(|p: (Seq<char>, bool)| Call::Number(p.0)) } else { f.map_values(|p: (Seq<char>, bool)| Call::Text(p.0)) }), ..x }),
    decreases f.len(),
{
    let g = |p: (Seq<char>, bool)| Ev::TextFragment(p.0, p.1);
    let c = |p: (Seq<char>, bool)| Call::Number(p.0);
    let d = |p: (Seq<char>, bool)| Call::Text(p.0);
    if f.len() > 0 {
        assert(f.map_values(g).drop_last() =~= f.drop_last().map_values(g));
        assert(f.map_values(c).drop_last() =~= f.drop_last().map_values(c));
        assert(f.map_values(d).drop_last() =~= f.drop_last().map_values(d));
        text_run(x, f.drop_last());
    }
}
pub proof fn acts(x: X, o: Of, m: Mark, g: Option<Tag>, l: Option<LabelV>, i: Option<IndexV>)
    ensures
        act(x, opens(o, m)) == (X { t: after(x.t, item_begin(o, m, x.first)), ..x }),
        act(x, closes(o, m)) == (X { first: false, ..x }),
        act(x, ends(o, g, l, i)) == (X { first: false, t: after(x.t, list_end(o, x.first)), ..x }),
{ hide(after); }
pub proof fn map_acts(x: X, z: Option<usize>)
    ensures
        act(x, Ev::MapBegin(z)) == (X { first: true, number: false, t: after(x.t, Call::MapBegin) }),
        act(x, Ev::MapKeyBegin) == (X { t: after(x.t, Call::MapKeyBegin(x.first)), ..x }),
        act(x, Ev::MapKeyEnd) == (X { t: after(x.t, Call::MapValueBegin(x.first)), ..x }),
        act(x, Ev::MapValueBegin) == x,
        act(x, Ev::MapValueEnd) == (X { first: false, ..x }),
        act(x, Ev::MapEnd) == (X { first: false, t: after(x.t, Call::MapEnd(x.first)), ..x }),
{ hide(after); }
pub proof fn text_acts(x: X, z: Option<usize>)
    ensures
        act(x, Ev::TextBegin(z)) == (if x.number { x } else { X { t: after(x.t, Call::TextQuote), ..x } }),
        act(x, Ev::TextEnd) == (if x.number { x } else { X { t: after(x.t, Call::TextQuote), ..x } }),
        act(x, Ev::BinaryBegin(z)) == (X { first: true, number: false, t: after(x.t, Call::SeqBegin) }),
        act(x, Ev::BinaryEnd) == (X { first: false, t: after(x.t, Call::SeqEnd(x.first)), ..x }),
{ hide(after); }
pub proof fn leaf_acts(x: X, e: Ev)
    requires scalar(e),
    ensures act(x, e) == (X { t: after(x.t, leaf_call(e)), ..x }),
{ hide(after); }
pub proof fn tag_acts(x: X, g: Option<Tag>, l: Option<LabelV>, i: Option<IndexV>)
    ensures
        act(x, Ev::Tag(g, l, i)) == (X { first: false, t: after(x.t, name_call(l)), ..x }),
        act(x, Ev::EnumBegin(g, l, i)) == (X { first: true, ..x }),
        act(x, Ev::EnumEnd(g, l, i)) == (if x.first { X { first: false, t: after(x.t, name_call(l)), ..x } } else { x }),
        act(x, Ev::TaggedBegin(g, l, i)) == (X { first: false, number: is_number(g) || x.number, t: match l { Some(l) => after(after(x.t, Call::TupleType(l.text)), Call::TupleBegin), None => x.t } }),
        act(x, Ev::TaggedEnd(g, l, i)) == (X { number: !is_number(g) && x.number, t: if l is Some { after(x.t, Call::TupleEnd(false)) } else { x.t }, ..x }),
{ hide(after); }
pub open spec fn done(x: X, v: V) -> X { X { first: x.first && keeps(v), number: left(v, x.number), t: all(x.t, render(v, x.number)) } }
// Streaming any value writes its text.
pub proof fn value_is_rendered(v: V, x: X)
    requires sound(v),
    ensures run(x, evs(v)) == done(x, v),
    decreases v, 1int,
{
    hide(act); hide(after); hide(run); hide(all);
    match v {
        V::Leaf(e) => { run_one(x, e); leaf_acts(x, e); all_one(x.t, leaf_call(e)); },
        V::Text(z, f) => text_is_rendered(z, f, x),
        V::Binary(z, f) => binary_is_rendered(z, f, x),
        V::Map(z, l) => {
            map_acts(x, z);
            entries_are_rendered(l, act(x, Ev::MapBegin(z)));
            map_is_rendered(z, l, x);
        },
        V::List(o, g, l, i, z, vs) => {
            begin_is_rendered(o, g, l, i, z, x);
            items_are_rendered(o, vs, act(x, begins(o, g, l, i, z)));
            list_is_rendered(o, g, l, i, z, vs, x);
        },
        V::Tag(g, l, i) => { run_one(x, Ev::Tag(g, l, i)); tag_acts(x, g, l, i); all_one(x.t, name_call(l)); },
        V::Tagged(g, l, i, k) => {
            let y = act(x, Ev::TaggedBegin(g, l, i));
            match k { Kid::Nil => {}, Kid::Some(c) => value_is_rendered(*c, y) }
            tagged_is_rendered(g, l, i, k, x);
        },
        V::Enum(g, l, i, k) => {
            let y = act(x, Ev::EnumBegin(g, l, i));
            match k { Kid::Nil => {}, Kid::Some(c) => value_is_rendered(*c, y) }
            enum_is_rendered(g, l, i, k, x);
        },
    }
}
pub proof fn run_none(x: X) ensures run(x, Seq::<Ev>::empty()) == x { }
pub proof fn all_none(t: T) ensures all(t, Seq::<Call>::empty()) == t { }
pub proof fn map_is_rendered(z: Option<usize>, l: Ents, x: X)
    requires run(act(x, Ev::MapBegin(z)), ents_evs(l)) == (X { first: l is Nil, number: false, t: all(act(x, Ev::MapBegin(z)).t, render_ents(l)) }),
    ensures run(x, evs(V::Map(z, l))) == done(x, V::Map(z, l)),
{
    hide(act); hide(after); hide(run); hide(all);
    run_between(x, Ev::MapBegin(z), ents_evs(l), Ev::MapEnd);
    map_acts(x, z);
    map_acts(run(act(x, Ev::MapBegin(z)), ents_evs(l)), z);
    all_between(x.t, Call::MapBegin, render_ents(l), Call::MapEnd(l is Nil));
}
pub proof fn list_is_rendered(o: Of, g: Option<Tag>, l: Option<LabelV>, i: Option<IndexV>, z: Option<usize>, vs: Items, x: X)
    requires run(act(x, begins(o, g, l, i, z)), items_evs(o, vs)) == (X { first: vs is Nil, number: false, t: all(act(x, begins(o, g, l, i, z)).t, render_items(o, vs)) }),
    ensures run(x, evs(V::List(o, g, l, i, z, vs))) == done(x, V::List(o, g, l, i, z, vs)),
{
    hide(act); hide(after); hide(run); hide(all);
    run_between(x, begins(o, g, l, i, z), items_evs(o, vs), ends(o, g, l, i));
    let y = act(x, begins(o, g, l, i, z));
    begin_is_rendered(o, g, l, i, z, x);
    acts(run(y, items_evs(o, vs)), o, arbitrary(), g, l, i);
    all_app(x.t, list_begin(o, l), render_items(o, vs));
    all_push(x.t, list_begin(o, l) + render_items(o, vs), list_end(o, vs is Nil));
    assert(render(V::List(o, g, l, i, z, vs), x.number) =~= (list_begin(o, l) + render_items(o, vs)).push(list_end(o, vs is Nil)));
}
pub proof fn enum_is_rendered(g: Option<Tag>, l: Option<LabelV>, i: Option<IndexV>, k: Kid, x: X)
    requires k matches Kid::Some(c) ==> !keeps(*c) && run(act(x, Ev::EnumBegin(g, l, i)), evs(*c)) == done(act(x, Ev::EnumBegin(g, l, i)), *c),
    ensures run(x, evs(V::Enum(g, l, i, k))) == done(x, V::Enum(g, l, i, k)),
{
    hide(act); hide(after); hide(run); hide(all);
    let b = match k { Kid::Nil => Seq::empty(), Kid::Some(c) => evs(*c) };
    run_between(x, Ev::EnumBegin(g, l, i), b, Ev::EnumEnd(g, l, i));
    let y = act(x, Ev::EnumBegin(g, l, i));
    tag_acts(x, g, l, i);
    tag_acts(run(y, b), g, l, i);
    all_one(x.t, name_call(l));
    run_none(y);
}
pub proof fn text_is_rendered(z: Option<usize>, f: Seq<(Seq<char>, bool)>, x: X)
    ensures run(x, evs(V::Text(z, f))) == done(x, V::Text(z, f)),
{
    hide(act); hide(after); hide(run); hide(all);
    let b = f.map_values(|p: (Seq<char>, bool)| Ev::TextFragment(p.0, p.1));
    run_between(x, Ev::TextBegin(z), b, Ev::TextEnd);
    text_acts(x, z);
    let y = act(x, Ev::TextBegin(z));
    text_run(y, f);
    text_acts(run(y, b), z);
    let d = f.map_values(|p: (Seq<char>, bool)| Call::Text(p.0));
    all_between(x.t, Call::TextQuote, d, Call::TextQuote);
}
pub proof fn binary_is_rendered(z: Option<usize>, f: Seq<(Seq<u8>, bool)>, x: X)
    ensures run(x, evs(V::Binary(z, f))) == done(x, V::Binary(z, f)),
{
    hide(act); hide(after); hide(run); hide(all);
    let b = f.map_values(|p: (Seq<u8>, bool)| Ev::BinaryFragment(p.0, p.1));
    run_between(x, Ev::BinaryBegin(z), b, Ev::BinaryEnd);
    text_acts(x, z);
    let y = act(x, Ev::BinaryBegin(z));
    binary_run(y, f);
    bytes_run(y, flat(f));
    text_acts(run(y, b), z);
    all_between(x.t, Call::SeqBegin, byte_calls(flat(f)), Call::SeqEnd(flat(f).len() == 0));
}
pub proof fn tagged_is_rendered(g: Option<Tag>, l: Option<LabelV>, i: Option<IndexV>, k: Kid, x: X)
    requires k matches Kid::Some(c) ==> run(act(x, Ev::TaggedBegin(g, l, i)), evs(*c)) == done(act(x, Ev::TaggedBegin(g, l, i)), *c),
    ensures run(x, evs(V::Tagged(g, l, i, k))) == done(x, V::Tagged(g, l, i, k)),
{
    hide(act); hide(after); hide(run); hide(all);
    let b = match k { Kid::Nil => Seq::empty(), Kid::Some(c) => evs(*c) };
    run_between(x, Ev::TaggedBegin(g, l, i), b, Ev::TaggedEnd(g, l, i));
    let y = act(x, Ev::TaggedBegin(g, l, i));
    tag_acts(x, g, l, i);
    tag_acts(run(y, b), g, l, i);
    run_none(y);
    all_none(y.t);
    all_none(x.t);
    let inner = match k { Kid::Nil => Seq::empty(), Kid::Some(c) => render(*c, y.number) };
    assert(run(y, b).t == all(y.t, inner));
    match l {
        Some(l) => {
            let h = seq![Call::TupleType(l.text), Call::TupleBegin];
            pair(x.t, Call::TupleType(l.text), Call::TupleBegin);
            all_app(x.t, h, inner);
            all_push(x.t, h + inner, Call::TupleEnd(false));
            assert(h + inner + seq![Call::TupleEnd(false)] =~= (h + inner).push(Call::TupleEnd(false)));
        },
        None => {},
    }
}
pub proof fn pair(t: T, a: Call, b: Call)
    ensures all(t, seq![a, b]) == after(after(t, a), b),
{ hide(after); hide(all); assert(seq![a, b] =~= seq![a].push(b)); all_push(t, seq![a], b); all_one(t, a); }
pub proof fn all_between(t: T, a: Call, b: Seq<Call>, c: Call)
    ensures all(t, seq![a] + b + seq![c]) == after(all(after(t, a), b), c),
{ hide(after); hide(all);
    assert(seq![a] + b + seq![c] =~= (seq![a] + b).push(c));
    all_push(t, seq![a] + b, c);
    all_app(t, seq![a], b);
    all_one(t, a);
}
pub proof fn begin_is_rendered(o: Of, g: Option<Tag>, l: Option<LabelV>, i: Option<IndexV>, z: Option<usize>, x: X)
    ensures act(x, begins(o, g, l, i, z)) == (X { first: true, number: false, t: all(x.t, list_begin(o, l)) }),
{
    match l {
        Some(n) => { pair(x.t, Call::TupleType(n.text), Call::TupleBegin); pair(x.t, Call::RecordType(n.text), Call::RecordBegin); },
        None => {},
    }
    all_one(x.t, Call::SeqBegin);
    all_one(x.t, Call::TupleBegin);
    all_one(x.t, Call::RecordBegin);
}
pub proof fn items_are_rendered(o: Of, l: Items, x: X)
    requires items_sound(l), x.first, !x.number,
    ensures run(x, items_evs(o, l)) == (X { first: l is Nil, number: false, t: all(x.t, render_items(o, l)) }),
    decreases l, 0int,
{ hide(act); hide(after); hide(run); hide(all);
    match l {
        Items::Nil => { run_none(x); all_none(x.t); },
        Items::Snoc(r, m, v) => {
            let a = items_evs(o, *r);
            items_are_rendered(o, *r, x);
            run_push(x, a, opens(o, m));
            acts(run(x, a), o, m, None, None, None);
            let y = run(x, a.push(opens(o, m)));
            acts(run(y, evs(*v)), o, m, None, None, None);
            value_is_rendered(*v, y);
            left_false(*v);
            run_push(y, evs(*v), closes(o, m));
            run_app(x, a.push(opens(o, m)), evs(*v).push(closes(o, m)));
            all_push(x.t, render_items(o, *r), item_begin(o, m, *r is Nil));
            all_app(x.t, render_items(o, *r).push(item_begin(o, m, *r is Nil)), render(*v, false));
        },
    }
}
pub proof fn entries_are_rendered(l: Ents, x: X)
    requires ents_sound(l), x.first, !x.number,
    ensures run(x, ents_evs(l)) == (X { first: l is Nil, number: false, t: all(x.t, render_ents(l)) }),
    decreases l, 0int,
{ hide(act); hide(after); hide(run); hide(all);
    match l {
        Ents::Nil => { run_none(x); all_none(x.t); },
        Ents::Snoc(r, k, v) => {
            let a = ents_evs(*r).push(Ev::MapKeyBegin);
            entries_are_rendered(*r, x);
            run_push(x, ents_evs(*r), Ev::MapKeyBegin);
            map_acts(run(x, ents_evs(*r)), None);
            let y = run(x, a);
            value_is_rendered(*k, y);
            left_false(*k);
            left_false(*v);
            let b = evs(*k).push(Ev::MapKeyEnd).push(Ev::MapValueBegin);
            run_push(y, evs(*k), Ev::MapKeyEnd);
            run_push(y, evs(*k).push(Ev::MapKeyEnd), Ev::MapValueBegin);
            map_acts(run(y, evs(*k)), None);
            map_acts(run(y, evs(*k).push(Ev::MapKeyEnd)), None);
            let z = run(y, b);
            map_acts(run(z, evs(*v)), None);
            value_is_rendered(*v, z);
            run_push(z, evs(*v), Ev::MapValueEnd);
            run_app(x, a, b);
            run_app(x, a + b, evs(*v).push(Ev::MapValueEnd));
            let c = render_ents(*r).push(Call::MapKeyBegin(*r is Nil));
            let d = render(*k, false).push(Call::MapValueBegin(*r is Nil && keeps(*k)));
            all_push(x.t, render_ents(*r), Call::MapKeyBegin(*r is Nil));
            all_push(all(x.t, c), render(*k, false), Call::MapValueBegin(*r is Nil && keeps(*k)));
            all_app(x.t, c, d);
            all_app(x.t, c + d, render(*v, false));
        },
    }
}
// The characters are those of the calls, in order.
pub open spec fn text_of(m: Mode, c: Seq<Call>) -> Seq<Ch>
    decreases c.len(),
{ if c.len() == 0 { Seq::empty() } else { text_of(m, c.drop_last()) + txt(m, c.last()) } }
pub proof fn all_is_text(t: T, c: Seq<Call>)
    ensures all(t, c) == (if t.mode is Calls { T { calls: t.calls + c, ..t } } else { T { chars: t.chars + text_of(t.mode, c), ..t } }),
    decreases c.len(),
{
    if c.len() == 0 {
        assert(t.calls + c =~= t.calls);
        assert(t.chars + text_of(t.mode, c) =~= t.chars);
    } else {
        all_is_text(t, c.drop_last());
        assert((t.calls + c.drop_last()).push(c.last()) =~= t.calls + c);
        assert((t.chars + text_of(t.mode, c.drop_last())) + txt(t.mode, c.last()) =~= t.chars + text_of(t.mode, c));
    }
}
// Text is escaped and quoted the same however it is split.
pub proof fn fragments_are_one_text(m: Mode, f: Seq<(Seq<char>, bool)>)
    ensures text_of(m, f.map_values(|p: (Seq<char>, bool)| Call::Text(p.0))) =~= ch(m, fmttags::TEXT, escaped(flat(f))),
    decreases f.len(),
{
    let d = |p: (Seq<char>, bool)| Call::Text(p.0);
    if f.len() > 0 {
        assert(f.map_values(d).drop_last() =~= f.drop_last().map_values(d));
        fragments_are_one_text(m, f.drop_last());
        escape::escaped_app(flat(f.drop_last()), f.last().0);
        ch_app(m, fmttags::TEXT, escaped(flat(f.drop_last())), escaped(f.last().0));
    }
}

// ---------------------------------------------------------------- entry points

pub mod entry {
use super::*;
// Whether a value reports an error of its own.
pub uninterp spec fn fails<A: ?Sized>(v: &A) -> bool;
// `v.stream(&mut writer)`: the value makes the calls of its events, in order, until one fails.
// `out` keeps the state that is reached.
#[verifier::external_body]
pub fn drive<A: Value, W: TokenWrite>(v: &A, w: Writer<W>, out: &mut Ghost<X>) -> (r: sval::Result)
    requires !w.out.t().broken,
    ensures r.is_ok() ==> !fails(v) && (*final(out))@ == run(X { first: w.is_current_depth_empty, number: w.is_number, t: w.out.t() }, v.evs()),
        r.is_err() ==> fails(v) || (*final(out))@.t.broken,
{ unimplemented!() }
pub open spec fn start(t: T) -> X { X { first: true, number: false, t } }
//@fn sval_fmt | to_fmt::stream_to_fmt
//@sub fn stream_to_fmt\( => fn stream_to_fmt<A: Value>(out: &mut Ghost<X>,
//@sub v: impl sval::Value => v: &A
//@sub v\.stream\(&mut Writer::new\((.*?)\)\)(?=\.map_err) => drive(v, Writer::new(\1), out)
//@sub \|_\| fmt::Error => |_e: sval::Error| fmt::Error
//@spec
    requires !fmt.t().broken,
    ensures r.is_ok() ==> !fails(v) && (*final(out))@ == run(start((*old(fmt)).t()), v.evs()),
        r.is_err() ==> fails(v) || (*final(out))@.t.broken,
//@end
//@fn sval_fmt | to_write::stream_to_write
//@sub fn stream_to_write\( => fn stream_to_write<A: Value, W: TextWrite>(out: &mut Ghost<X>,
//@sub v: impl sval::Value => v: &A
//@sub fmt: impl Write => fmt: W
//@sub v\.stream\(&mut Writer::new\((.*?)\)\)\s*(?=\.map_err) => drive(v, Writer::new(\1), out)
//@sub \|_\| fmt::Error => |_e: sval::Error| fmt::Error
//@spec
    requires !fmt.t().broken,
    ensures r.is_ok() ==> !fails(v) && (*final(out))@ == run(start(T { mode: Mode::Generic, ..fmt.t() }), v.evs()),
        r.is_err() ==> fails(v) || (*final(out))@.t.broken,
//@end
//@fn sval_fmt | to_write::stream_to_token_write
//@sub fn stream_to_token_write\( => fn stream_to_token_write<A: Value, W: TokenWrite>(out: &mut Ghost<X>,
//@sub v: impl sval::Value => v: &A
//@sub fmt: impl TokenWrite => fmt: W
//@sub v\.stream\(&mut Writer::new\((.*?)\)\)\s*(?=\.map_err) => drive(v, Writer::new(\1), out)
//@sub \|_\| fmt::Error => |_e: sval::Error| fmt::Error
//@spec
    requires !fmt.t().broken,
    ensures r.is_ok() ==> !fails(v) && (*final(out))@ == run(start(fmt.t()), v.evs()),
        r.is_err() ==> fails(v) || (*final(out))@.t.broken,
//@end
// After a failure, the error itself is written where the text ends: an error of the writer fails again.
pub uninterp spec fn marked(f: fmt::Formatter) -> bool;
#[verifier::external_body]
pub fn note(f: &mut fmt::Formatter<'_>, e: fmt::Error) -> (r: fmt::Result) ensures r.is_ok() ==> marked(*final(f)) { unimplemented!() }
pub struct ToFmt<V>(pub V);
impl<V: Value> ToFmt<V> {
//@fn sval_fmt | to_fmt::{impl<V: sval::Value> ToFmt<V>}::new
//@spec
    ensures r.0 == value,
//@end
//@fn sval_fmt | to_fmt::{impl<V: sval::Value> fmt::Display for ToFmt<V>}::fmt
//@as fmt_display
//@sub fn fmt_display\( => fn fmt_display(out: &mut Ghost<X>,
//@sub \(out: &mut Ghost<X>,\s*&self, => (&self, out: &mut Ghost<X>,
//@sub stream_to_fmt\( => stream_to_fmt(out, 
//@sub f\.write_fmt\(format_args!\("<\{0\}>",\s*e\)\) => note(f, e)
//@spec
    requires !(*old(f)).t().broken,
    ensures r.is_err() ==> fails(&self.0) || (*final(out))@.t.broken,
        !fails(&self.0) && !(*final(out))@.t.broken ==> r.is_ok() && (*final(out))@ == run(start((*old(f)).t()), self.0.evs()),
        r.is_ok() ==> (*final(out))@ == run(start((*old(f)).t()), self.0.evs()) || marked(*final(f)),
//@end
//@fn sval_fmt | to_fmt::{impl<V: sval::Value> fmt::Debug for ToFmt<V>}::fmt
//@as fmt_debug
//@sub fn fmt_debug\( => fn fmt_debug(out: &mut Ghost<X>,
//@sub \(out: &mut Ghost<X>,\s*&self, => (&self, out: &mut Ghost<X>,
//@sub fmt::Display::fmt\(self, f\) => self.fmt_display(out, f)
//@spec
    requires !(*old(f)).t().broken,
    ensures r.is_err() ==> fails(&self.0) || (*final(out))@.t.broken,
        !fails(&self.0) && !(*final(out))@.t.broken ==> r.is_ok() && (*final(out))@ == run(start((*old(f)).t()), self.0.evs()),
        r.is_ok() ==> (*final(out))@ == run(start((*old(f)).t()), self.0.evs()) || marked(*final(f)),
//@end
}
}
} // verus!
fn main() {}
