// C15: values adapted from `Debug` and `Display` stream the text they print.
use vstd::prelude::*;
verus! {
//@include stream.rs
pub mod sval { pub use super::*; }
pub mod fmt {
    use super::*;
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    // The pieces that `{}` or `{:?}` write.
    pub trait Display { spec fn pieces(&self) -> Seq<Seq<char>>; }
    pub trait Debug { spec fn pieces(&self) -> Seq<Seq<char>>; }
}
pub open spec fn fragments(p: Seq<Seq<char>>) -> Seq<Ev> { p.map_values(|p: Seq<char>| Ev::TextFragment(p, false)) }
pub open spec fn print_evs(p: Seq<Seq<char>>) -> Seq<Ev> { seq![Ev::TextBegin(None)] + fragments(p) + seq![Ev::TextEnd] }
pub struct DebugToValue<V>(pub V);
pub struct DisplayToValue<V>(pub V);
impl<V: fmt::Debug> Value for DebugToValue<V> { open spec fn evs(&self) -> Seq<Ev> { print_evs(self.0.pieces()) } }
impl<V: fmt::Display> Value for DisplayToValue<V> { open spec fn evs(&self) -> Seq<Ev> { print_evs(self.0.pieces()) } }
pub proof fn plain(p: Seq<Seq<char>>, l: bool)
    ensures lend(print_evs(p), l) =~= print_evs(p), lend(fragments(p), l) =~= fragments(p),
{ }
pub mod writers {
use super::*;
pub struct Writer<S>(pub S);
impl<S> Writer<S> {
//@fn sval_fmt | to_value::{impl<T: fmt::Debug> sval::Value for DebugToValue<T>}::stream::{body}::{impl<'a, S: sval::Stream<'a>> fmt::Write for Writer<S>}::write_str
//@as write_debug
//@sub fn write_debug\( => fn write_debug<'a>(
//@sub \|_\| fmt::Error => |_e: sval::Error| fmt::Error
//@spec
    where S: sval::Stream<'a>
    requires !(*old(self)).0.st().broken,
    ensures r.is_err() == (*final(self)).0.st().broken, (*final(self)).0.st().lends == (*old(self)).0.st().lends,
        r.is_ok() ==> (*final(self)).0.st().log =~= (*old(self)).0.st().log + seq![Ev::TextFragment(s@, false)],
//@end
//@fn sval_fmt | to_value::{impl<T: fmt::Display> sval::Value for DisplayToValue<T>}::stream::{body}::{impl<'a, S: sval::Stream<'a>> fmt::Write for Writer<S>}::write_str
//@as write_display
//@sub fn write_display\( => fn write_display<'a>(
//@sub \|_\| fmt::Error => |_e: sval::Error| fmt::Error
//@spec
    where S: sval::Stream<'a>
    requires !(*old(self)).0.st().broken,
    ensures r.is_err() == (*final(self)).0.st().broken, (*final(self)).0.st().lends == (*old(self)).0.st().lends,
        r.is_ok() ==> (*final(self)).0.st().log =~= (*old(self)).0.st().log + seq![Ev::TextFragment(s@, false)],
//@end
}
}
pub mod adapted {
use super::*;
broadcast use {append_empty, append_assoc};
// `format_args!` calls `write_str`, above, with each piece in order until one fails, and reports
// that failure and no other (assumed of `Display` and `Debug`).
#[verifier::external_body]
pub fn print_display<'sval, S: Stream<'sval> + ?Sized, V: fmt::Display>(stream: &mut S, v: &V) -> (r: fmt::Result)
    requires !(*old(stream)).st().broken,
    ensures r.is_err() == (*final(stream)).st().broken, (*final(stream)).st().lends == (*old(stream)).st().lends,
        r.is_ok() ==> (*final(stream)).st().log =~= (*old(stream)).st().log + fragments(v.pieces()),
{ unimplemented!() }
#[verifier::external_body]
pub fn print_debug<'sval, S: Stream<'sval> + ?Sized, V: fmt::Debug>(stream: &mut S, v: &V) -> (r: fmt::Result)
    requires !(*old(stream)).st().broken,
    ensures r.is_err() == (*final(stream)).st().broken, (*final(stream)).st().lends == (*old(stream)).st().lends,
        r.is_ok() ==> (*final(stream)).st().log =~= (*old(stream)).st().log + fragments(v.pieces()),
{ unimplemented!() }
impl<V: fmt::Debug> DebugToValue<V> {
//@fn sval_fmt | to_value::{impl<V: fmt::Debug> DebugToValue<V>}::new
//@spec
    ensures r.0 == value,
//@end
//@fn sval_fmt | to_value::{impl<T: fmt::Debug> sval::Value for DebugToValue<T>}::stream
//@hoisted
//@sub Writer\(&mut \*stream\)\.write_fmt\(format_args!\("\{0:\?\}",\s*self\.0\)\) => print_debug(&mut *stream, &self.0)
//@sub \.map_err\(\|_\|\s*sval::Error::new\(\)\) => .map_err(|_e: fmt::Error| sval::Error::new())
//@spec
    requires !(*old(stream)).st().broken,
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(self.evs(), (*old(stream)).st().lends)),
//@head
    proof { plain(self.0.pieces(), stream.st().lends); }
//@end
}
impl<V: fmt::Display> DisplayToValue<V> {
//@fn sval_fmt | to_value::{impl<V: fmt::Display> DisplayToValue<V>}::new
//@spec
    ensures r.0 == value,
//@end
//@fn sval_fmt | to_value::{impl<T: fmt::Display> sval::Value for DisplayToValue<T>}::stream
//@hoisted
//@sub Writer\(&mut \*stream\)\.write_fmt\(format_args!\("\{0\}",\s*self\.0\)\) => print_display(&mut *stream, &self.0)
//@sub \.map_err\(\|_\|\s*sval::Error::new\(\)\) => .map_err(|_e: fmt::Error| sval::Error::new())
//@spec
    requires !(*old(stream)).st().broken,
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(self.evs(), (*old(stream)).st().lends)),
//@head
    proof { plain(self.0.pieces(), stream.st().lends); }
//@end
}
//@fn sval_fmt | to_value::stream_debug
//@sub stream:\s*&mut \(impl sval::Stream<'sval> \+ \?Sized\) => stream: &mut S
//@sub value:\s*impl fmt::Debug => value: V
//@sub (fn \w+)<'sval> => \1<'sval, S: Stream<'sval> + ?Sized, V: fmt::Debug>
//@spec
    requires !(*old(stream)).st().broken,
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, print_evs(value.pieces())),
//@head
    proof { plain(value.pieces(), false); }
//@end
//@fn sval_fmt | to_value::stream_display
//@sub stream:\s*&mut \(impl sval::Stream<'sval> \+ \?Sized\) => stream: &mut S
//@sub value:\s*impl fmt::Display => value: V
//@sub (fn \w+)<'sval> => \1<'sval, S: Stream<'sval> + ?Sized, V: fmt::Display>
//@spec
    requires !(*old(stream)).st().broken,
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, print_evs(value.pieces())),
//@head
    proof { plain(value.pieces(), false); }
//@end
}
} // verus!
fn main() {}
