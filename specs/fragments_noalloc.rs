// C07: without an allocator, text and binary buffers hold exactly the concatenated fragments or there is an error (generated by lib/mknoalloc.py).
use vstd::prelude::*;
verus! {
//@include stream.rs
//@include builtin.rs
pub mod sval { pub use super::*; }

pub mod fragments {
use super::{sval, Seq, Ev, St, lend, sent, Value, ValueStream, text_evs, computed_text_evs, binary_evs, BinarySlice};
use super::sval::Stream as _;
use super::{lend_push, lend_lend, append_empty, append_assoc, lend_concat};
use vstd::prelude::*;
broadcast use {lend_push, lend_lend, append_empty, append_assoc, lend_concat};
pub type Result<T, E> = core::result::Result<T, E>;
pub struct Error(());
impl Error {
    pub fn unsupported(_a: &str, _b: &str) -> Error { Error(()) }
    pub fn invalid_value(_a: &str) -> Error { Error(()) }
    pub fn no_alloc(_a: &str) -> Error { Error(()) }
}
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize) ensures r == sval::utf8_len(s@) as usize, r == 0 <==> s@.len() == 0 { s.len() }

pub trait Content {
    type E;
    spec fn content(&self) -> Seq<Self::E>;
}
pub trait Fragment: Content {
    // only what is empty may be replaced
    fn can_replace(&self) -> (r: bool) ensures r == (self.content().len() == 0);
}
//@fn sval_buffer_noalloc | fragments::Fragment::to_fragment
//@sub fn to_fragment<'sval>\(&'sval self\) -> \(r: &'sval Self\) => pub fn to_fragment<'sval, T: ?Sized + Fragment>(self_: &'sval T) -> (r: &'sval T)
//@sub \{\s*self\s*\} => { self_ }
//@spec
    ensures r == self_,
//@end
impl Content for str {
    type E = char;
    open spec fn content(&self) -> Seq<char> { self@ }
}
impl Fragment for str {
//@fn sval_buffer_noalloc | fragments::{impl Fragment for str}::can_replace
//@sub self\.len\(\) => str_len(self)
//@end
}
impl Content for [u8] {
    type E = u8;
    open spec fn content(&self) -> Seq<u8> { self@ }
}
impl Fragment for [u8] {
//@fn sval_buffer_noalloc | fragments::{impl Fragment for [u8]}::can_replace
//@end
}

pub struct FragmentBuf<'sval, T: ?Sized + Fragment> { pub value: &'sval T }
#[verifier::external_body]
pub fn same_content<T: ?Sized + Content>(a: &T, b: &T) -> (r: bool) ensures r == (a.content() == b.content()) { unimplemented!() }
impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T> {
    pub open spec fn content(&self) -> Seq<T::E> { self.value.content() }
//@fn sval_buffer_noalloc | fragments::{impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T>}::new
//@sub value\.to_fragment\(\) => to_fragment(value)
//@spec
    ensures r.content() == value.content(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T>}::push
//@sub fragment\.to_fragment\(\) => to_fragment(fragment)
//@spec
    ensures r.is_ok() ==> (*final(self)).content() =~= (*old(self)).content() + fragment.content(), r.is_err() ==> *final(self) == *old(self), old(self).content().len() == 0 ==> r.is_ok(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T>}::push_computed
//@spec
    ensures r.is_ok() ==> (*final(self)).content() =~= (*old(self)).content() + fragment.content(), r.is_err() ==> *final(self) == *old(self),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T>}::as_borrowed_inner
//@spec
    ensures r matches Some(v) ==> v.content() == self.content(), r.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T>}::as_inner
//@spec
    ensures r.content() == self.content(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval, T: ?Sized + Fragment> Clone for FragmentBuf<'sval, T>}::clone
//@spec
    ensures r.content() == self.content(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval, T: ?Sized + Fragment + PartialEq> PartialEq for FragmentBuf<'sval, T>}::eq
//@sub (\w+)\.value == (\w+)\.value => same_content(\1.value, \2.value)
//@sub (\w+)\.value != (\w+)\.value => !same_content(\1.value, \2.value)
//@spec
    ensures r == (self.content() == other.content()),
//@end
}
pub struct TextBuf<'sval> { pub buf: FragmentBuf<'sval, str> }
impl<'sval> TextBuf<'sval> {
    pub open spec fn content(&self) -> Seq<char> { self.buf.content() }
//@fn sval_buffer_noalloc | fragments::{impl<'sval> TextBuf<'sval>}::new
//@literals
//@sub reveal_strlit\((\"\")\); lit_bytes\(\"\"@\);.*?\} => reveal_strlit(""); }
//@sub FragmentBuf::new\(&\[\]\) => FragmentBuf::new(empty_slice())
//@spec
    ensures r.content() =~= Seq::<char>::empty(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval> TextBuf<'sval>}::clear
//@sub Default::default\(\) => TextBuf::new()
//@spec
    ensures (*final(self)).content() =~= Seq::<char>::empty(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval> TextBuf<'sval>}::push_fragment
//@spec
    ensures r.is_ok() ==> (*final(self)).content() =~= (*old(self)).content() + fragment@, r.is_err() ==> *final(self) == *old(self),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval> TextBuf<'sval>}::push_fragment_computed
//@spec
    ensures r.is_ok() ==> (*final(self)).content() =~= (*old(self)).content() + fragment@, r.is_err() ==> *final(self) == *old(self),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval> TextBuf<'sval>}::as_borrowed_str
//@spec
    ensures r matches Some(v) ==> v@ == self.content(), r.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval> TextBuf<'sval>}::as_str
//@spec
    ensures r@ == self.content(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval> Default for TextBuf<'sval>}::default
//@spec
    ensures r.content() =~= Seq::<char>::empty(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval> From<&'sval str> for TextBuf<'sval>}::from
//@spec
    ensures r.content() == fragment@,
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval> AsRef<str> for TextBuf<'sval>}::as_ref
//@spec
    ensures r@ == self.content(),
//@end
}
pub struct BinaryBuf<'sval> { pub buf: FragmentBuf<'sval, [u8]> }
impl<'sval> BinaryBuf<'sval> {
    pub open spec fn content(&self) -> Seq<u8> { self.buf.content() }
//@fn sval_buffer_noalloc | fragments::{impl<'sval> BinaryBuf<'sval>}::new
//@literals
//@sub reveal_strlit\((\"\")\); lit_bytes\(\"\"@\);.*?\} => reveal_strlit(""); }
//@sub FragmentBuf::new\(&\[\]\) => FragmentBuf::new(empty_slice())
//@spec
    ensures r.content() =~= Seq::<u8>::empty(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval> BinaryBuf<'sval>}::clear
//@sub Default::default\(\) => BinaryBuf::new()
//@spec
    ensures (*final(self)).content() =~= Seq::<u8>::empty(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval> BinaryBuf<'sval>}::push_fragment
//@spec
    ensures r.is_ok() ==> (*final(self)).content() =~= (*old(self)).content() + fragment@, r.is_err() ==> *final(self) == *old(self),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval> BinaryBuf<'sval>}::push_fragment_computed
//@spec
    ensures r.is_ok() ==> (*final(self)).content() =~= (*old(self)).content() + fragment@, r.is_err() ==> *final(self) == *old(self),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval> BinaryBuf<'sval>}::as_borrowed_slice
//@spec
    ensures r matches Some(v) ==> v@ == self.content(), r.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval> BinaryBuf<'sval>}::as_slice
//@spec
    ensures r@ == self.content(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval> Default for BinaryBuf<'sval>}::default
//@spec
    ensures r.content() =~= Seq::<u8>::empty(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval> From<&'sval [u8]> for BinaryBuf<'sval>}::from
//@spec
    ensures r.content() == fragment@,
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval> AsRef<[u8]> for BinaryBuf<'sval>}::as_ref
//@spec
    ensures r@ == self.content(),
//@end
}

// TextCollector: what `TextBuf::collect` streams a value into.
pub struct TextCollector<'a> { pub buf: TextBuf<'a>, pub err: Option<Error> }
#[verifier::prophetic]
pub open spec fn text_step<'a, F: FnOnce(&mut TextBuf<'a>) -> Result<(), Error>>(f: F, a: TextBuf<'a>, z: TextBuf<'a>, ok: bool) -> bool {
    exists|b: &mut TextBuf<'a>, x: Result<(), Error>| *b == a && *final(b) == z && x.is_ok() == ok && #[trigger] call_ensures(f, (b,), x)
}
impl<'a> TextCollector<'a> {
//@fn sval_buffer_noalloc | fragments::{impl<'a> TextCollector<'a>}::try_catch
//@sub (fn \w+)\(&mut self,\s*f: impl (FnOnce\(.*?\) -> Result<\(\), Error>)\s*,?\s*\) => \1<F: \2>(&mut self, f: F)
//@spec
    requires forall|b: &mut TextBuf<'a>| *b == (*old(self)).buf ==> call_requires(f, (b,)),
    ensures text_step(f, (*old(self)).buf, (*final(self)).buf, r.is_ok()), r.is_err() ==> (*final(self)).err.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> TextCollector<'a>}::fail
//@spec
    ensures r.is_err(), (*final(self)).buf == (*old(self)).buf, (*final(self)).err.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for TextCollector<'a>}::text_begin
//@spec
    ensures r.is_ok(), (*final(self)).buf == (*old(self)).buf,
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for TextCollector<'a>}::text_end
//@spec
    ensures r.is_ok(), (*final(self)).buf == (*old(self)).buf,
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for TextCollector<'a>}::text_fragment
//@sub \|buf\| buf\.(\w+)\((.*?)\)\) => |buf: &mut TextBuf<'a>| -> (r: Result<(), Error>) ensures r.is_ok() ==> (*final(buf)).content() =~= (*old(buf)).content() + fragment@, r.is_err() ==> *final(buf) == *old(buf) { buf.\1(\2) })
//@spec
    ensures r.is_ok() ==> (*final(self)).buf.content() =~= (*old(self)).buf.content() + fragment@, r.is_err() ==> (*final(self)).err.is_some() && (*final(self)).buf == (*old(self)).buf,
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for TextCollector<'a>}::text_fragment_computed
//@sub \|buf\| buf\.(\w+)\((.*?)\)\) => |buf: &mut TextBuf<'a>| -> (r: Result<(), Error>) ensures r.is_ok() ==> (*final(buf)).content() =~= (*old(buf)).content() + fragment@, r.is_err() ==> *final(buf) == *old(buf) { buf.\1(\2) })
//@spec
    ensures r.is_ok() ==> (*final(self)).buf.content() =~= (*old(self)).buf.content() + fragment@, r.is_err() ==> (*final(self)).err.is_some() && (*final(self)).buf == (*old(self)).buf,
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for TextCollector<'a>}::null
//@spec
    ensures r.is_err(), (*final(self)).err.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for TextCollector<'a>}::bool
//@spec
    ensures r.is_err(), (*final(self)).err.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for TextCollector<'a>}::i64
//@spec
    ensures r.is_err(), (*final(self)).err.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for TextCollector<'a>}::f64
//@spec
    ensures r.is_err(), (*final(self)).err.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for TextCollector<'a>}::seq_begin
//@spec
    ensures r.is_err(), (*final(self)).err.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for TextCollector<'a>}::seq_value_begin
//@spec
    ensures r.is_err(), (*final(self)).err.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for TextCollector<'a>}::seq_value_end
//@spec
    ensures r.is_err(), (*final(self)).err.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for TextCollector<'a>}::seq_end
//@spec
    ensures r.is_err(), (*final(self)).err.is_some(),
//@end
}

// BinaryCollector: what `BinaryBuf::collect` streams a value into.
pub struct BinaryCollector<'a> { pub buf: BinaryBuf<'a>, pub err: Option<Error> }
#[verifier::prophetic]
pub open spec fn binary_step<'a, F: FnOnce(&mut BinaryBuf<'a>) -> Result<(), Error>>(f: F, a: BinaryBuf<'a>, z: BinaryBuf<'a>, ok: bool) -> bool {
    exists|b: &mut BinaryBuf<'a>, x: Result<(), Error>| *b == a && *final(b) == z && x.is_ok() == ok && #[trigger] call_ensures(f, (b,), x)
}
impl<'a> BinaryCollector<'a> {
//@fn sval_buffer_noalloc | fragments::{impl<'a> BinaryCollector<'a>}::try_catch
//@sub (fn \w+)\(&mut self,\s*f: impl (FnOnce\(.*?\) -> Result<\(\), Error>)\s*,?\s*\) => \1<F: \2>(&mut self, f: F)
//@spec
    requires forall|b: &mut BinaryBuf<'a>| *b == (*old(self)).buf ==> call_requires(f, (b,)),
    ensures binary_step(f, (*old(self)).buf, (*final(self)).buf, r.is_ok()), r.is_err() ==> (*final(self)).err.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> BinaryCollector<'a>}::fail
//@spec
    ensures r.is_err(), (*final(self)).buf == (*old(self)).buf, (*final(self)).err.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for BinaryCollector<'a>}::binary_begin
//@spec
    ensures r.is_ok(), (*final(self)).buf == (*old(self)).buf,
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for BinaryCollector<'a>}::binary_end
//@spec
    ensures r.is_ok(), (*final(self)).buf == (*old(self)).buf,
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for BinaryCollector<'a>}::binary_fragment
//@sub \|buf\| buf\.(\w+)\((.*?)\)\) => |buf: &mut BinaryBuf<'a>| -> (r: Result<(), Error>) ensures r.is_ok() ==> (*final(buf)).content() =~= (*old(buf)).content() + fragment@, r.is_err() ==> *final(buf) == *old(buf) { buf.\1(\2) })
//@spec
    ensures r.is_ok() ==> (*final(self)).buf.content() =~= (*old(self)).buf.content() + fragment@, r.is_err() ==> (*final(self)).err.is_some() && (*final(self)).buf == (*old(self)).buf,
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for BinaryCollector<'a>}::binary_fragment_computed
//@sub \|buf\| buf\.(\w+)\((.*?)\)\) => |buf: &mut BinaryBuf<'a>| -> (r: Result<(), Error>) ensures r.is_ok() ==> (*final(buf)).content() =~= (*old(buf)).content() + fragment@, r.is_err() ==> *final(buf) == *old(buf) { buf.\1(\2) })
//@spec
    ensures r.is_ok() ==> (*final(self)).buf.content() =~= (*old(self)).buf.content() + fragment@, r.is_err() ==> (*final(self)).err.is_some() && (*final(self)).buf == (*old(self)).buf,
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for BinaryCollector<'a>}::null
//@spec
    ensures r.is_err(), (*final(self)).err.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for BinaryCollector<'a>}::bool
//@spec
    ensures r.is_err(), (*final(self)).err.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for BinaryCollector<'a>}::i64
//@spec
    ensures r.is_err(), (*final(self)).err.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for BinaryCollector<'a>}::f64
//@spec
    ensures r.is_err(), (*final(self)).err.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for BinaryCollector<'a>}::map_begin
//@spec
    ensures r.is_err(), (*final(self)).err.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for BinaryCollector<'a>}::text_begin
//@spec
    ensures r.is_err(), (*final(self)).err.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for BinaryCollector<'a>}::text_fragment_computed
//@spec
    ensures r.is_err(), (*final(self)).err.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for BinaryCollector<'a>}::text_end
//@spec
    ensures r.is_err(), (*final(self)).err.is_some(),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for BinaryCollector<'a>}::seq_begin
//@spec
    ensures r.is_ok(), (*final(self)).buf == (*old(self)).buf,
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for BinaryCollector<'a>}::seq_value_begin
//@spec
    ensures r.is_ok(), (*final(self)).buf == (*old(self)).buf,
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for BinaryCollector<'a>}::seq_value_end
//@spec
    ensures r.is_ok(), (*final(self)).buf == (*old(self)).buf,
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for BinaryCollector<'a>}::seq_end
//@spec
    ensures r.is_ok(), (*final(self)).buf == (*old(self)).buf,
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'a> sval::Stream<'a> for BinaryCollector<'a>}::u8
//@sub \|buf\| buf\.(\w+)\((.*?)\)\) => |buf: &mut BinaryBuf<'a>| -> (r: Result<(), Error>) ensures r.is_ok() ==> (*final(buf)).content() =~= (*old(buf)).content() + seq![value], r.is_err() ==> *final(buf) == *old(buf) { buf.\1(\2) })
//@spec
    ensures r.is_ok() ==> (*final(self)).buf.content() =~= (*old(self)).buf.content().push(value), r.is_err() ==> (*final(self)).err.is_some() && (*final(self)).buf == (*old(self)).buf,
//@end
}

impl<'sval> TextBuf<'sval> {
//@fn sval_buffer_noalloc | fragments::{impl<'sval> fmt::Write for TextBuf<'sval>}::write_str
//@sub \|_\| fmt::Error => |_e: Error| FmtError
//@sub fmt::Result => core::result::Result<(), FmtError>
//@spec
    ensures r.is_ok() ==> (*final(self)).content() =~= (*old(self)).content() + s@, r.is_err() ==> *final(self) == *old(self),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval> sval_ref::ValueRef<'sval> for TextBuf<'sval>}::stream_ref
//@sub v\.len\(\) => str_len(v)
//@spec
    requires !(*old(stream)).st().broken,
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r,
        lend(text_evs(self.content()), (*old(stream)).st().lends)),
//@end
}
pub struct FmtError;
impl<'sval> BinaryBuf<'sval> {
//@fn sval_buffer_noalloc | fragments::{impl<'sval> sval_ref::ValueRef<'sval> for BinaryBuf<'sval>}::stream_ref
//@spec
    requires !(*old(stream)).st().broken,
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(binary_evs(self.content()), (*old(stream)).st().lends)),
//@end
}
impl<'a> Value for TextBuf<'a> { open spec fn evs(&self) -> Seq<Ev> { text_evs(self.content()) } }
impl<'a> Value for BinaryBuf<'a> { open spec fn evs(&self) -> Seq<Ev> { binary_evs(self.content()) } }
//@impl sval_buffer_noalloc | fragments::{impl<'a> sval::Value for TextBuf<'a>}
//@header impl<'a> ValueStream for TextBuf<'a>
//@sub self\.as_str\(\)\.stream\(stream\) => sval::stream_any(self.as_str(), stream)
//@end
//@impl sval_buffer_noalloc | fragments::{impl<'a> sval::Value for BinaryBuf<'a>}
//@header impl<'a> ValueStream for BinaryBuf<'a>
//@sub (sval::BinarySlice::new\(self\.as_slice\(\)\))\.stream\(stream\) => sval::stream_any(\1, stream)
//@end

// `value.stream(&mut collector)`: the value makes the calls of its events, in order, until one
// fails; each keeps its contract above (fragments are appended, begins and ends do nothing).
pub open spec fn text_joined(evs: Seq<Ev>) -> Seq<char>
    decreases evs.len(),
{ if evs.len() == 0 { Seq::empty() } else { text_joined(evs.drop_last()) + (match evs.last() { Ev::TextFragment(s, _) => s, _ => Seq::empty() }) } }
pub open spec fn text_only(evs: Seq<Ev>) -> bool { forall|i: int| 0 <= i < evs.len() ==> (match #[trigger] evs[i] { Ev::TextFragment(..) => true, Ev::TextBegin(_) => true, Ev::TextEnd => true, _ => false }) }
#[verifier::external_body]
pub fn drive_text<'a, V: Value + ?Sized>(v: &'a V, c: &mut TextCollector<'a>) -> (r: sval::Result)
    ensures
        r.is_ok() ==> !fails(v),
        r.is_ok() && text_only(v.evs()) ==> (*final(c)).buf.content() == (*old(c)).buf.content() + text_joined(v.evs()),
{ unimplemented!() }
impl<'sval> TextBuf<'sval> {
//@fn sval_buffer_noalloc | fragments::{impl<'sval> TextBuf<'sval>}::collect
//@sub fn collect\( => fn collect<V: Value + ?Sized>(
//@sub &'sval \(impl sval::Value \+ \?Sized\) => &'sval V
//@sub value\.stream\(&mut collector\) => drive_text(value, &mut collector)
//@sub \.map_err\(\|_\|\s*\{\s*collector\.err\.unwrap_or_else\(\|\|\s*(Error::invalid_value\("[^"]*"\))\)\s*\}\)\? => .map_err(|_e: sval::Error| \1)?
//@spec
    ensures r.is_ok() ==> !fails(value),
        r.is_ok() && text_only(value.evs()) ==> r->Ok_0.content() =~= text_joined(value.evs()),
//@end
}

// `value.stream(&mut collector)`: the value makes the calls of its events, in order, until one
// fails; each keeps its contract above (fragments are appended, begins and ends do nothing).
pub open spec fn binary_joined(evs: Seq<Ev>) -> Seq<u8>
    decreases evs.len(),
{ if evs.len() == 0 { Seq::empty() } else { binary_joined(evs.drop_last()) + (match evs.last() { Ev::BinaryFragment(s, _) => s, _ => Seq::empty() }) } }
pub open spec fn binary_only(evs: Seq<Ev>) -> bool { forall|i: int| 0 <= i < evs.len() ==> (match #[trigger] evs[i] { Ev::BinaryFragment(..) => true, Ev::BinaryBegin(_) => true, Ev::BinaryEnd => true, _ => false }) }
#[verifier::external_body]
pub fn drive_binary<'a, V: Value + ?Sized>(v: &'a V, c: &mut BinaryCollector<'a>) -> (r: sval::Result)
    ensures
        r.is_ok() ==> !fails(v),
        r.is_ok() && binary_only(v.evs()) ==> (*final(c)).buf.content() == (*old(c)).buf.content() + binary_joined(v.evs()),
{ unimplemented!() }
impl<'sval> BinaryBuf<'sval> {
//@fn sval_buffer_noalloc | fragments::{impl<'sval> BinaryBuf<'sval>}::collect
//@sub fn collect\( => fn collect<V: Value + ?Sized>(
//@sub &'sval \(impl sval::Value \+ \?Sized\) => &'sval V
//@sub value\.stream\(&mut collector\) => drive_binary(value, &mut collector)
//@sub \.map_err\(\|_\|\s*\{\s*collector\.err\.unwrap_or_else\(\|\|\s*(Error::invalid_value\("[^"]*"\))\)\s*\}\)\? => .map_err(|_e: sval::Error| \1)?
//@spec
    ensures r.is_ok() ==> !fails(value),
        r.is_ok() && binary_only(value.evs()) ==> r->Ok_0.content() =~= binary_joined(value.evs()),
//@end
}

// Whether a value reports an error of its own.
pub uninterp spec fn fails<V: ?Sized>(v: &V) -> bool;
// What Display prints, and whether it fails of itself.
pub uninterp spec fn display_text<V: ?Sized>(v: &V) -> Seq<char>;
pub uninterp spec fn display_fails<V: ?Sized>(v: &V) -> bool;
pub struct Writer<'a, 'sval> { pub buf: &'a mut TextBuf<'sval>, pub err: Option<Error> }
impl<'a, 'sval> Writer<'a, 'sval> {
//@fn sval_buffer_noalloc | fragments::{impl<'sval> TextBuf<'sval>}::push_display::{body}::{impl<'a, 'sval> fmt::Write for Writer<'a, 'sval>}::write_str
//@sub fmt::Result => core::result::Result<(), FmtError>
//@sub fmt::Error => FmtError
//@spec
    ensures *final((*final(self)).buf) == *final((*old(self)).buf), r.is_err() ==> (*final(self)).err is Some && *(*final(self)).buf == *(*old(self)).buf,
        r.is_ok() ==> (*(*final(self)).buf).content() =~= (*(*old(self)).buf).content() + s@,
//@end
}
// `write_fmt(format_args!("{}", value))`: Display's pieces go to `write_str`, in order.
#[verifier::external_body]
pub fn drive_display<'a, 'sval, V>(w: &mut Writer<'a, 'sval>, v: &V) -> (r: core::result::Result<(), FmtError>)
    ensures r.is_ok() ==> !display_fails(v), *final((*final(w)).buf) == *final((*old(w)).buf),
        r.is_ok() ==> (*(*final(w)).buf).content() == (*(*old(w)).buf).content() + display_text(v),
{ unimplemented!() }
impl<'sval> TextBuf<'sval> {
//@fn sval_buffer_noalloc | fragments::{impl<'sval> TextBuf<'sval>}::push_display
//@hoisted
//@sub fn push_display\( => fn push_display<V>(
//@sub value: impl fmt::Display => value: V
//@sub \(&mut writer\)\.write_fmt\(format_args!\("\{0\}",\s*value\)\) => drive_display(&mut writer, &value)
//@sub \.map_err\(\|_\|\s*\{\s*writer\.err\.unwrap_or_else\(\|\|\s*(Error::invalid_value\("[^"]*"\))\)\s*\}\) => .map_err(|_e: FmtError| \1)
//@spec
    ensures r.is_ok() ==> !display_fails(&value), r.is_ok() ==> (*final(self)).content() =~= (*old(self)).content() + display_text(&value),
//@end
//@fn sval_buffer_noalloc | fragments::{impl<'sval> TextBuf<'sval>}::collect_display
//@sub fn collect_display\( => fn collect_display<V>(
//@sub value: impl fmt::Display => value: V
//@spec
    ensures r.is_ok() ==> !display_fails(&value), r.is_ok() ==> r->Ok_0.content() =~= display_text(&value),
//@end
}
impl<'sval> BinaryBuf<'sval> {
//@fn sval_buffer_noalloc | fragments::{impl<'sval, const N : usize> From<&'sval [u8; N]> for BinaryBuf<'sval>}::from
//@as from_array
//@sub fn from_array\( => fn from_array<const N: usize>(
//@spec
    ensures r.content() == fragment@,
//@end
}
pub fn empty_slice<'a>() -> (r: &'a [u8]) ensures r@ =~= Seq::<u8>::empty() { &[] }
}
}
fn main() {}
