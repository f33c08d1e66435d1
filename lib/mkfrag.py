"""Writes specs/fragments.rs."""
import os
o = [r'''// C07: text and binary buffers hold exactly the concatenated fragments.
use vstd::prelude::*;
verus! {
//@include stream.rs
//@include builtin.rs
pub mod sval { pub use super::*; }

pub mod fragments {
use super::{sval, Seq, Ev, St, lend, sent, Value, ValueStream, text_evs, computed_text_evs, binary_evs, BinarySlice};
use super::sval::Stream as _;
use super::{lend_push, lend_lend, append_empty, append_assoc, lend_concat};
use vstd::prelude::*;
broadcast use {lend_push, lend_lend, append_empty, append_assoc, lend_concat};
pub type Result<T, E> = core::result::Result<T, E>;
pub struct Error(());
impl Error {
    pub fn unsupported(_a: &str, _b: &str) -> Error { Error(()) }
    pub fn invalid_value(_a: &str) -> Error { Error(()) }
}
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize) ensures r == sval::utf8_len(s@) as usize, r == 0 ==> s@.len() == 0 { s.len() }

// std's `Cow`, by its definition.
pub enum Cow<'a, T: ?Sized + Content> { Borrowed(&'a T), Owned(T::Owned) }
impl<'a, T: ?Sized + Content> Cow<'a, T> {
    pub open spec fn content(&self) -> Seq<T::E> {
        match self { Cow::Borrowed(b) => b.content(), Cow::Owned(o) => T::owned_content(*o) }
    }
    #[verifier::external_body]
    pub fn to_mut(&mut self) -> (r: &mut T::Owned)
        ensures T::owned_content(*r) == (*old(self)).content(), *final(self) == Cow::<'a, T>::Owned(*final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn deref_(&self) -> (r: &T) ensures r.content() == self.content() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone_(&self) -> (r: Cow<'a, T>) ensures r.content() == self.content(), r is Borrowed == *self is Borrowed,
        r matches Cow::Borrowed(b) ==> *self == r, { unimplemented!() }
}
impl<'a, T: ?Sized + Fragment> Cow<'a, T> {
    pub fn can_replace(&self) -> (r: bool) ensures r ==> self.content().len() == 0 { self.deref_().can_replace() }
}
// `transmute` of a longer borrow: only what borrows nothing may be seen as 'static
#[verifier::external_body]
pub fn as_static_cow<'a, 's, T: ?Sized + Fragment>(c: &'a mut Cow<'s, T>) -> (r: &'a mut Cow<'static, T>)
    requires *old(c) is Owned,
    ensures (*r).content() == (*old(c)).content(), *r is Owned, (*final(c)).content() == (*final(r)).content(), *final(r) is Owned ==> *final(c) is Owned,
{ unimplemented!() }
#[verifier::external_body]
pub fn as_static_buf<'a, 's, T: ?Sized + Fragment>(c: &'a mut FragmentBuf<'s, T>) -> (r: &'a mut FragmentBuf<'static, T>)
    requires (*old(c)).value is Owned,
    ensures (*r).content() == (*old(c)).content(), (*r).value is Owned, (*final(c)).content() == (*final(r)).content(), (*final(r)).value is Owned ==> (*final(c)).value is Owned,
{ unimplemented!() }
#[verifier::external_body]
pub fn as_static_text<'a, 's>(c: &'a mut TextBuf<'s>) -> (r: &'a mut TextBuf<'static>)
    requires (*old(c)).buf.value is Owned,
    ensures (*r).content() == (*old(c)).content(), (*final(c)).content() == (*final(r)).content(), (*r).buf.value is Owned, (*final(r)).buf.value is Owned ==> (*final(c)).buf.value is Owned,
{ unimplemented!() }
#[verifier::external_body]
pub fn as_static_binary<'a, 's>(c: &'a mut BinaryBuf<'s>) -> (r: &'a mut BinaryBuf<'static>)
    requires (*old(c)).buf.value is Owned,
    ensures (*r).content() == (*old(c)).content(), (*final(c)).content() == (*final(r)).content(), (*r).buf.value is Owned, (*final(r)).buf.value is Owned ==> (*final(c)).buf.value is Owned,
{ unimplemented!() }

pub trait Content {
    type E;
    type Owned;
    spec fn content(&self) -> Seq<Self::E>;
    spec fn owned_content(o: Self::Owned) -> Seq<Self::E>;
    // `ToOwned`
    fn to_owned(&self) -> (r: Self::Owned) ensures Self::owned_content(r) == self.content();
}
pub trait Fragment: Content {
    // adding to a buffer keeps what is there
    fn extend(buf: &mut Cow<Self>, fragment: &Self)
        ensures (*final(buf)).content() =~= (*old(buf)).content() + fragment.content(), *final(buf) is Owned;
    // only what is empty may be replaced
    fn can_replace(&self) -> (r: bool) ensures r ==> self.content().len() == 0;
}
//@fn sval_buffer | fragments::Fragment::to_fragment
//@sub fn to_fragment<'sval>\(&'sval self\) -> \(r: Cow<'sval, Self>\) => pub fn to_fragment<'sval, T: ?Sized + Fragment>(self_: &'sval T) -> (r: Cow<'sval, T>)
//@sub Cow::Borrowed\(self\) => Cow::Borrowed(self_)
//@spec
    ensures r == Cow::<'sval, T>::Borrowed(self_),
//@end
//@fn sval_buffer | fragments::Fragment::into_owned_in_place
//@as cow_into_owned_in_place
//@sub (fn \w+)<'a, 'sval>\(([^)]*)\) => pub \1<'a, 'sval, T: ?Sized + Fragment>(\2)
//@sub Cow<('sval|'static), Self> => Cow<\1, T>
//@sub (?s)unsafe \{\s*mem::transmute.*?\(buf\)\s*\} => as_static_cow(buf)
//@sub \*buf = Cow::Owned\(v\.to_owned\(\)\) => let owned = v.to_owned(); *buf = Cow::Owned(owned)
//@spec
    ensures (*r).content() == (*old(buf)).content(), *r is Owned, (*final(buf)).content() == (*final(r)).content(), *final(r) is Owned ==> *final(buf) is Owned,
//@end
impl Content for str {
    type E = char;
    type Owned = String;
    open spec fn content(&self) -> Seq<char> { self@ }
    open spec fn owned_content(o: String) -> Seq<char> { o@ }
    #[verifier::external_body]
    fn to_owned(&self) -> String { unimplemented!() }
}
impl Fragment for str {
//@fn sval_buffer | fragments::{impl Fragment for str}::extend
//@end
//@fn sval_buffer | fragments::{impl Fragment for str}::can_replace
//@sub self\.len\(\) => str_len(self)
//@end
}
impl Content for [u8] {
    type E = u8;
    type Owned = Vec<u8>;
    open spec fn content(&self) -> Seq<u8> { self@ }
    open spec fn owned_content(o: Vec<u8>) -> Seq<u8> { o@ }
    #[verifier::external_body]
    fn to_owned(&self) -> Vec<u8> { unimplemented!() }
}
impl Fragment for [u8] {
//@fn sval_buffer | fragments::{impl Fragment for [u8]}::extend
//@sub \.extend\(fragment\) => .extend_from_slice(fragment)
//@end
//@fn sval_buffer | fragments::{impl Fragment for [u8]}::can_replace
//@end
}

pub struct FragmentBuf<'sval, T: ?Sized + Fragment> { pub value: Cow<'sval, T> }
impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T> {
    pub open spec fn content(&self) -> Seq<T::E> { self.value.content() }
//@fn sval_buffer | fragments::{impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T>}::new
//@sub value\.to_fragment\(\) => to_fragment(value)
//@spec
    ensures r.content() == value.content(),
//@end
//@fn sval_buffer | fragments::{impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T>}::push
//@sub fragment\.to_fragment\(\) => to_fragment(fragment)
//@spec
    ensures r.is_ok(), (*final(self)).content() =~= (*old(self)).content() + fragment.content(),
//@end
//@fn sval_buffer | fragments::{impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T>}::push_computed
//@sub Fragment::extend\( => T::extend(
//@spec
    ensures r.is_ok(), (*final(self)).content() =~= (*old(self)).content() + fragment.content(), (*final(self)).value is Owned,
//@end
//@fn sval_buffer | fragments::{impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T>}::as_borrowed_inner
//@spec
    ensures r matches Some(v) ==> v.content() == self.content(), r.is_some() == (self.value is Borrowed),
//@end
//@fn sval_buffer | fragments::{impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T>}::as_inner
//@sub &\*self\.value => self.value.deref_()
//@spec
    ensures r.content() == self.content(),
//@end
//@fn sval_buffer | fragments::{impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T>}::into_owned_in_place
//@sub crate::assert_static\(Fragment::into_owned_in_place\(&mut self\.value\)\) => cow_into_owned_in_place(&mut self.value)
//@sub (?s)unsafe \{\s*mem::transmute.*\(self\)\s*\} => as_static_buf(self)
//@spec
    ensures (*r).content() == (*old(self)).content(), (*r).value is Owned, (*final(self)).content() == (*final(r)).content(), (*final(r)).value is Owned ==> (*final(self)).value is Owned,
//@end
//@fn sval_buffer | fragments::{impl<'sval, T: ?Sized + Fragment> Clone for FragmentBuf<'sval, T> where T::Owned: Clone}::clone
//@sub self\.value\.clone\(\) => self.value.clone_()
//@spec
    ensures r.content() == self.content(),
//@end
}
''']
for ty, frag, el, as_b, as_s, empty in (("TextBuf", "str", "char", "as_borrowed_str", "as_str", '""'), ("BinaryBuf", "[u8]", "u8", "as_borrowed_slice", "as_slice", "&[]")):
    P = f"fragments::{{impl<'sval> {ty}<'sval>}}"
    low = "text" if ty == "TextBuf" else "binary"
    o.append(f'''pub struct {ty}<'sval> {{ pub buf: FragmentBuf<'sval, {frag}> }}
impl<'sval> {ty}<'sval> {{
    pub open spec fn content(&self) -> Seq<{el}> {{ self.buf.content() }}
//@fn sval_buffer | {P}::new
//@literals
//@sub reveal_strlit\\((\\"\\")\\); lit_bytes\\(\\"\\"@\\);.*?\\}} => reveal_strlit(""); }}
//@sub FragmentBuf::new\\(&\\[\\]\\) => FragmentBuf::new(empty_slice())
//@spec
    ensures r.content() =~= Seq::<{el}>::empty(),
//@end
//@fn sval_buffer | {P}::clear
//@sub Default::default\\(\\) => {ty}::new()
//@spec
    ensures (*final(self)).content() =~= Seq::<{el}>::empty(),
//@end
//@fn sval_buffer | {P}::push_fragment
//@spec
    ensures r.is_ok(), (*final(self)).content() =~= (*old(self)).content() + fragment@,
//@end
//@fn sval_buffer | {P}::push_fragment_computed
//@spec
    ensures r.is_ok(), (*final(self)).content() =~= (*old(self)).content() + fragment@,
//@end
//@fn sval_buffer | {P}::{as_b}
//@spec
    ensures r matches Some(v) ==> v@ == self.content(), r.is_some() == (self.buf.value is Borrowed),
//@end
//@fn sval_buffer | {P}::{as_s}
//@spec
    ensures r@ == self.content(),
//@end
//@fn sval_buffer | {P}::into_owned_in_place
//@sub let {ty} \\{{ ref mut buf \\}} = self; => let buf = &mut self.buf;
//@sub crate::assert_static\\((buf\\.into_owned_in_place\\(\\))\\) => \\1
//@sub (?s)unsafe \\{{\\s*mem::transmute.*\\(self\\)\\s*\\}} => as_static_{low}(self)
//@spec
    ensures (*r).content() == (*old(self)).content(), (*final(self)).content() == (*final(r)).content(), (*r).buf.value is Owned, (*final(r)).buf.value is Owned ==> (*final(self)).buf.value is Owned,
//@end
//@fn sval_buffer | fragments::{{impl<'sval> Default for {ty}<'sval>}}::default
//@spec
    ensures r.content() =~= Seq::<{el}>::empty(),
//@end
//@fn sval_buffer | fragments::{{impl<'sval> From<&'sval {frag}> for {ty}<'sval>}}::from
//@spec
    ensures r.content() == fragment@,
//@end
//@fn sval_buffer | fragments::{{impl<'sval> AsRef<{frag}> for {ty}<'sval>}}::as_ref
//@spec
    ensures r@ == self.content(),
//@end
}}
''')

for ty, col, frag, kind in (("TextBuf", "TextCollector", "str", "text"), ("BinaryBuf", "BinaryCollector", "[u8]", "binary")):
    C = f"fragments::{{impl<'a> {col}<'a>}}"
    S = f"fragments::{{impl<'a> sval::Stream<'a> for {col}<'a>}}"
    o.append(f"""
// {col}: what `{ty}::collect` streams a value into.
pub struct {col}<'a> {{ pub buf: {ty}<'a>, pub err: Option<Error> }}
#[verifier::prophetic]
pub open spec fn {kind}_step<'a, F: FnOnce(&mut {ty}<'a>) -> Result<(), Error>>(f: F, a: {ty}<'a>, z: {ty}<'a>, ok: bool) -> bool {{
    exists|b: &mut {ty}<'a>, x: Result<(), Error>| *b == a && *final(b) == z && x.is_ok() == ok && #[trigger] call_ensures(f, (b,), x)
}}
impl<'a> {col}<'a> {{
//@fn sval_buffer | {C}::try_catch
//@sub (fn \\w+)\\(&mut self,\\s*f: impl (FnOnce\\(.*?\\) -> Result<\\(\\), Error>)\\s*,?\\s*\\) => \\1<F: \\2>(&mut self, f: F)
//@spec
    requires forall|b: &mut {ty}<'a>| *b == (*old(self)).buf ==> call_requires(f, (b,)),
    ensures {kind}_step(f, (*old(self)).buf, (*final(self)).buf, r.is_ok()), r.is_err() ==> (*final(self)).err.is_some(),
//@end
//@fn sval_buffer | {C}::fail
//@spec
    ensures r.is_err(), (*final(self)).buf == (*old(self)).buf, (*final(self)).err.is_some(),
//@end
""")
    def m(name, spec, extra=""):
        o.append(f"//@fn sval_buffer | {S}::{name}\n{extra}//@spec\n    ensures {spec},\n//@end\n")
    same = "r.is_ok(), (*final(self)).buf == (*old(self)).buf"
    push = "r.is_ok(), (*final(self)).buf.content() =~= (*old(self)).buf.content() + fragment@"
    clos = (f"//@sub \\|buf\\| buf\\.(\\w+)\\((.*?)\\)\\) => |buf: &mut {ty}<'a>| -> (r: Result<(), Error>) "
            f"ensures r.is_ok(), (*final(buf)).content() =~= (*old(buf)).content() + DATA {{{{ buf.\\1(\\2) }}}})\n").replace("{{","{").replace("}}","}")
    bad = "r.is_err(), (*final(self)).err.is_some()"
    m(f"{kind}_begin", same)
    m(f"{kind}_end", same)
    m(f"{kind}_fragment", push, clos.replace("DATA", "fragment@"))
    m(f"{kind}_fragment_computed", push, clos.replace("DATA", "fragment@"))
    if kind == "text":
        for n in "null bool i64 f64 seq_begin seq_value_begin seq_value_end seq_end".split():
            m(n, bad)
    else:
        for n in "null bool i64 f64 map_begin text_begin text_fragment_computed text_end".split():
            m(n, bad)
        for n in "seq_begin seq_value_begin seq_value_end seq_end".split():
            m(n, same)
        m("u8", "r.is_ok(), (*final(self)).buf.content() =~= (*old(self)).buf.content().push(value)", clos.replace("DATA", "seq![value]"))
    o.append("}\n")
o.append(r'''
impl<'sval> TextBuf<'sval> {
//@fn sval_buffer | fragments::{impl<'sval> fmt::Write for TextBuf<'sval>}::write_str
//@sub \|_\| fmt::Error => |_e: Error| FmtError
//@sub fmt::Result => core::result::Result<(), FmtError>
//@spec
    ensures r.is_ok(), (*final(self)).content() =~= (*old(self)).content() + s@,
//@end
//@fn sval_buffer | fragments::{impl<'sval> sval_ref::ValueRef<'sval> for TextBuf<'sval>}::stream_ref
//@sub v\.len\(\) => str_len(v)
//@spec
    requires !(*old(stream)).st().broken,
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r,
        if self.buf.value is Borrowed { lend(text_evs(self.content()), (*old(stream)).st().lends) } else { computed_text_evs(self.content()) }),
//@end
}
pub struct FmtError;
impl<'sval> BinaryBuf<'sval> {
//@fn sval_buffer | fragments::{impl<'sval> sval_ref::ValueRef<'sval> for BinaryBuf<'sval>}::stream_ref
//@spec
    requires !(*old(stream)).st().broken,
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(binary_evs(self.content()), (*old(stream)).st().lends && self.buf.value is Borrowed)),
//@end
}
impl<'a> Value for TextBuf<'a> { open spec fn evs(&self) -> Seq<Ev> { text_evs(self.content()) } }
impl<'a> Value for BinaryBuf<'a> { open spec fn evs(&self) -> Seq<Ev> { binary_evs(self.content()) } }
//@impl sval_buffer | fragments::{impl<'a> sval::Value for TextBuf<'a>}
//@header impl<'a> ValueStream for TextBuf<'a>
//@sub self\.as_str\(\)\.stream\(stream\) => sval::stream_any(self.as_str(), stream)
//@end
//@impl sval_buffer | fragments::{impl<'a> sval::Value for BinaryBuf<'a>}
//@header impl<'a> ValueStream for BinaryBuf<'a>
//@sub (sval::BinarySlice::new\(self\.as_slice\(\)\))\.stream\(stream\) => sval::stream_any(\1, stream)
//@end
''')
# what runs a foreign value, or prints one
for T, C, E, EV, low in (("TextBuf", "TextCollector", "char", "TextFragment", "text"), ("BinaryBuf", "BinaryCollector", "u8", "BinaryFragment", "binary")):
    o.append(rf'''
// `value.stream(&mut collector)`: the value makes the calls of its events, in order, until one
// fails; each keeps its contract above (fragments are appended, begins and ends do nothing).
pub open spec fn {low}_joined(evs: Seq<Ev>) -> Seq<{E}>
    decreases evs.len(),
{{ if evs.len() == 0 {{ Seq::empty() }} else {{ {low}_joined(evs.drop_last()) + (match evs.last() {{ Ev::{EV}(s, _) => s, _ => Seq::empty() }}) }} }}
pub open spec fn {low}_only(evs: Seq<Ev>) -> bool {{ forall|i: int| 0 <= i < evs.len() ==> (match #[trigger] evs[i] {{ Ev::{EV}(..) => true, Ev::{low.capitalize()}Begin(_) => true, Ev::{low.capitalize()}End => true, _ => false }}) }}
#[verifier::external_body]
pub fn drive_{low}<'a, V: Value + ?Sized>(v: &'a V, c: &mut {C}<'a>) -> (r: sval::Result)
    ensures
        r.is_ok() ==> !fails(v),
        !fails(v) && {low}_only(v.evs()) ==> r.is_ok(),
        r.is_ok() && {low}_only(v.evs()) ==> (*final(c)).buf.content() == (*old(c)).buf.content() + {low}_joined(v.evs()),
{{ unimplemented!() }}
impl<'sval> {T}<'sval> {{
//@fn sval_buffer | fragments::{{impl<'sval> {T}<'sval>}}::collect
//@sub fn collect\( => fn collect<V: Value + ?Sized>(
//@sub &'sval \(impl sval::Value \+ \?Sized\) => &'sval V
//@sub value\.stream\(&mut collector\) => drive_{low}(value, &mut collector)
//@sub \.map_err\(\|_\|\s*\{{\s*collector\.err\.unwrap_or_else\(\|\|\s*(Error::invalid_value\("[^"]*"\))\)\s*\}}\)\? => .map_err(|_e: sval::Error| \1)?
//@spec
    ensures r.is_ok() ==> !fails(value), !fails(value) && {low}_only(value.evs()) ==> r.is_ok(),
        r.is_ok() && {low}_only(value.evs()) ==> r->Ok_0.content() =~= {low}_joined(value.evs()),
//@end
}}
''')
o.append(r'''
// Whether a value reports an error of its own.
pub uninterp spec fn fails<V: ?Sized>(v: &V) -> bool;
// What Display prints, and whether it fails of itself.
pub uninterp spec fn display_text<V: ?Sized>(v: &V) -> Seq<char>;
pub uninterp spec fn display_fails<V: ?Sized>(v: &V) -> bool;
pub struct Writer<'a, 'sval> { pub buf: &'a mut TextBuf<'sval>, pub err: Option<Error> }
impl<'a, 'sval> Writer<'a, 'sval> {
//@fn sval_buffer | fragments::{impl<'sval> TextBuf<'sval>}::push_display::{body}::{impl<'a, 'sval> fmt::Write for Writer<'a, 'sval>}::write_str
//@sub fmt::Result => core::result::Result<(), FmtError>
//@sub fmt::Error => FmtError
//@spec
    ensures r.is_ok(), *final((*final(self)).buf) == *final((*old(self)).buf),
        (*(*final(self)).buf).content() =~= (*(*old(self)).buf).content() + s@,
//@end
}
// `write_fmt(format_args!("{}", value))`: Display's pieces go to `write_str`, in order.
#[verifier::external_body]
pub fn drive_display<'a, 'sval, V>(w: &mut Writer<'a, 'sval>, v: &V) -> (r: core::result::Result<(), FmtError>)
    ensures r.is_ok() == !display_fails(v), *final((*final(w)).buf) == *final((*old(w)).buf),
        r.is_ok() ==> (*(*final(w)).buf).content() == (*(*old(w)).buf).content() + display_text(v),
{ unimplemented!() }
impl<'sval> TextBuf<'sval> {
//@fn sval_buffer | fragments::{impl<'sval> TextBuf<'sval>}::push_display
//@hoisted
//@sub fn push_display\( => fn push_display<V>(
//@sub value: impl fmt::Display => value: V
//@sub \(&mut writer\)\.write_fmt\(format_args!\("\{0\}",\s*value\)\) => drive_display(&mut writer, &value)
//@sub \.map_err\(\|_\|\s*\{\s*writer\.err\.unwrap_or_else\(\|\|\s*(Error::invalid_value\("[^"]*"\))\)\s*\}\) => .map_err(|_e: FmtError| \1)
//@spec
    ensures r.is_ok() == !display_fails(&value), r.is_ok() ==> (*final(self)).content() =~= (*old(self)).content() + display_text(&value),
//@end
//@fn sval_buffer | fragments::{impl<'sval> TextBuf<'sval>}::collect_display
//@sub fn collect_display\( => fn collect_display<V>(
//@sub value: impl fmt::Display => value: V
//@spec
    ensures r.is_ok() == !display_fails(&value), r.is_ok() ==> r->Ok_0.content() =~= display_text(&value),
//@end
}
impl<'sval> BinaryBuf<'sval> {
//@fn sval_buffer | fragments::{impl<'sval, const N : usize> From<&'sval [u8; N]> for BinaryBuf<'sval>}::from
//@as from_array
//@sub fn from_array\( => fn from_array<const N: usize>(
//@spec
    ensures r.content() == fragment@,
//@end
}
// Comparing two `Cow`s compares what they stand for (std's documentation).
#[verifier::external_body]
pub fn cow_eq<'a, 'b, T: ?Sized + Content>(a: &Cow<'a, T>, b: &Cow<'b, T>) -> (r: bool) ensures r == (a.content() == b.content()) { unimplemented!() }
impl<'sval, T: ?Sized + Fragment> FragmentBuf<'sval, T> {
//@fn sval_buffer | fragments::{impl<'sval, T: ?Sized + Fragment + PartialEq> PartialEq for FragmentBuf<'sval, T> where T::Owned: PartialEq}::eq
//@sub (\w+)\.value == (\w+)\.value => cow_eq(&\1.value, &\2.value)
//@sub (\w+)\.value != (\w+)\.value => !cow_eq(&\1.value, &\2.value)
//@spec
    ensures r == (self.content() == other.content()),
//@end
}
''')
o.append(r'''
pub fn empty_slice<'a>() -> (r: &'a [u8]) ensures r@ =~= Seq::<u8>::empty() { &[] }
}
}
fn main() {}
''')
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "fragments.rs"), "w").write("".join(o))
