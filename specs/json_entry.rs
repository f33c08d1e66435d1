//@include io_fmt.rs stub
// The outermost functions: a value's document, or a reported failure.
impl<'a, W: Write> Write for &'a mut W {
    type End = W;
    open spec fn out(&self) -> Seq<u8> { (**self).out() }
    open spec fn dead(&self) -> bool { (**self).dead() }
    open spec fn wf(&self) -> bool { (**self).wf() }
    #[verifier::prophetic]
    open spec fn end(&self) -> W { *final(*self) }
    fn write_str(&mut self, s: &str) -> (r: fmt::Result) { (**self).write_str(s) }
}
pub struct Error { pub kind: ErrorKind }
pub enum ErrorKind { Generic, IO(io::Error), InvalidKey }
impl Error {
    pub open spec fn is_generic(self) -> bool { self.kind is Generic }
}
//@impl sval_json | error::{impl Error}
//@sub pub\(crate\) => pub
//@spec generic
    ensures r.is_generic(),
//@spec invalid_key
    ensures r.kind is InvalidKey,
//@end

pub struct Formatter<W> {
    pub is_internally_tagged: bool,
    pub is_current_depth_empty: bool,
    pub is_text_quoted: bool,
    pub text_handler: Option<TextHandler>,
    pub err: Option<Error>,
    pub out: W,
}
impl<W: Write> Formatter<W> {
    pub uninterp spec fn handler(h: Option<TextHandler>) -> Hd;
    pub open spec fn f(&self) -> F {
        F { tagged: self.is_internally_tagged, empty: self.is_current_depth_empty, quoted: self.is_text_quoted,
            h: match self.text_handler { None => Hd::None, h => Self::handler(h) } }
    }
    pub open spec fn s(&self) -> S { S { f: self.f(), o: self.out.out() } }
}
//@impl sval_json | to_fmt::{impl<W> Formatter<W>}
//@header impl<W: Write> Formatter<W>
//@only new
//@spec new
    ensures r.f() == (F { tagged: false, empty: true, quoted: true, h: Hd::None }), r.out == out, r.err.is_none(),
//@end

// A value: the tree its events are (C12), and whether it fails of itself.
pub trait Value { spec fn tree(&self) -> T; spec fn fails(&self) -> bool; }
// `v.stream(&mut formatter)`: the value makes the calls of its tree's events, in order, until one
// fails.  Each of those calls keeps its contract in json_fmt.rs.
#[verifier::external_body]
pub fn drive<'a, V: Value, W: Write>(v: &V, stream: &mut Formatter<&'a mut W>) -> (r: sval::Result)
    requires !(*old(stream)).out.dead(),
    ensures
        *final((*final(stream)).out) == *final((*old(stream)).out), // (the same writer)
        (*old(stream)).out.wf() ==> (*final(stream)).out.wf(),
        (*(*final(stream)).out).end() == (*(*old(stream)).out).end(),
        r.is_ok() ==> !v.fails() && !(*final(stream)).out.dead() && run(v.tree(), (*old(stream)).s(), (*final(stream)).s()),
        r.is_err() ==> v.fails() || (*final(stream)).out.dead() || (*final(stream)).err.is_some(),
{ unimplemented!() }
pub broadcast proof fn one_document(t: T, a: S, b: S)
    requires #[trigger] run(t, a, b), a.f == (F { tagged: false, empty: true, quoted: true, h: Hd::None }),
    ensures put(t, a.o, b.o),
{ value_ok(t, a, b); }

pub mod entry {
use super::*;
use super::to_io::IoToFmt;
broadcast use one_document;
//@fn sval_json | to_fmt::stream_to_fmt_write
//@sub fn stream_to_fmt_write\( => fn stream_to_fmt_write<W: Write, V: Value>(
//@sub fmt: impl Write => fmt: &mut W
//@sub v: impl sval::Value => v: V
//@sub v\.stream\(&mut stream\) => drive(&v, &mut stream)
//@spec
    requires !(*old(fmt)).dead(),
    ensures
        (*final(fmt)).end() == (*old(fmt)).end(),
        (*old(fmt)).wf() ==> (*final(fmt)).wf(),
        r.is_ok() ==> !v.fails() && !(*final(fmt)).dead() && put(v.tree(), (*old(fmt)).out(), (*final(fmt)).out()),
//@end

//@fn sval_json | to_io::stream_to_io_write
//@hoisted
//@sub fn stream_to_io_write\( => fn stream_to_io_write<W: io::Write, V: Value>(
//@sub io: impl Write => io: &mut W
//@sub v: impl sval::Value => v: V
//@sub crate:: =>
//@spec
    requires (*old(io)).failure() is None,
    ensures
        (*final(io)).failure().is_some() ==> r.is_err() && r->Err_0.kind == ErrorKind::IO((*final(io)).failure().unwrap()),
        r.is_ok() ==> !v.fails() && put(v.tree(), (*old(io)).out(), (*final(io)).out()),
//@end

// `String` and `Vec<u8>` as sinks: they take everything (alloc's documentation).
#[verifier::external_body]
pub struct String { s: std::string::String }
impl String {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: String) ensures r.bytes() == Seq::<u8>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: String) ensures r.bytes() == Seq::<u8>::empty(), { unimplemented!() }
}
impl Write for String {
    type End = ();
    open spec fn out(&self) -> Seq<u8> { self.bytes() }
    open spec fn dead(&self) -> bool { false }
    open spec fn wf(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn end(&self) { () }
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (r: fmt::Result) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Vec<T> { s: std::vec::Vec<T> }
impl Vec<u8> {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.bytes() == Seq::<u8>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r.bytes() == Seq::<u8>::empty(), { unimplemented!() }
}
impl io::Write for Vec<u8> {
    type End = ();
    open spec fn out(&self) -> Seq<u8> { self.bytes() }
    open spec fn interrupts_left(&self) -> nat { 0 }
    open spec fn failure(&self) -> Option<io::Error> { None }
    #[verifier::prophetic]
    open spec fn end(&self) { () }
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: core::result::Result<usize, io::Error>) { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
}
// A boxed `str` seen as a `JsonStr`, which is the same text (repr(transparent)).
#[verifier::external_body]
pub struct JsonStr { s: std::string::String }
impl JsonStr {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn boxed(json: String) -> (r: Box<JsonStr>) ensures r.bytes() == json.bytes(), { unimplemented!() }
}
pub open spec fn document(t: T, x: Seq<u8>) -> bool { doc(t, x) }
pub broadcast proof fn put_at_start(t: T, x: Seq<u8>)
    requires #[trigger] put(t, Seq::<u8>::empty(), x),
    ensures document(t, x),
{ let y = choose|y: Seq<u8>| #[trigger] doc(t, y) && x == Seq::<u8>::empty() + y; assert(x =~= y); }
pub mod to_alloc {
use super::*;
broadcast use put_at_start;
//@fn sval_json | to_string::stream_to_string
//@sub fn stream_to_string\( => fn stream_to_string<V: Value>(
//@sub v: impl sval::Value => v: V
//@sub crate:: =>
//@spec
    ensures r.is_ok() ==> !v.fails() && document(v.tree(), r->Ok_0.bytes()),
//@end
//@fn sval_json | to_string::stream_to_json_str
//@sub fn stream_to_json_str\( => fn stream_to_json_str<V: Value>(
//@sub v: impl sval::Value => v: V
//@sub crate:: =>
//@spec
    ensures r.is_ok() ==> !v.fails() && document(v.tree(), r->Ok_0.bytes()),
//@end
//@fn sval_json | to_vec::stream_to_vec
//@sub fn stream_to_vec\( => fn stream_to_vec<V: Value>(
//@sub v: impl sval::Value => v: V
//@sub crate:: =>
//@spec
    ensures r.is_ok() ==> !v.fails() && document(v.tree(), r->Ok_0.bytes()),
//@end
}
}
