// Anything printed by `fmt::Display`: text in pieces that only the printer knows.
pub uninterp spec fn pieces<V: ?Sized>(v: &V) -> Seq<Seq<char>>;
pub open spec fn printed_evs<V: ?Sized>(v: &V) -> Seq<Ev> { pieces(v).map_values(|p: Seq<char>| Ev::TextFragment(p, false)) }
pub open spec fn display_evs<V: ?Sized>(v: &V) -> Seq<Ev> {
    seq![Ev::TextBegin(None)] + lend(printed_evs(v), false) + seq![Ev::TextEnd]
}
pub struct Display<V>(pub V);
impl<V> Value for Display<V> { open spec fn evs(&self) -> Seq<Ev> { display_evs(&self.0) } }
pub mod prints {
use super::*;
pub mod fmt { pub struct Error; pub type Result = core::result::Result<(), Error>; }
// `format_args!("{}", v)` writes these, in order, until a write fails (assumed of `Display`).
#[verifier::external_body]
pub fn printed<'a, V: ?Sized>(v: &'a V) -> (r: Vec<&'a str>)
    ensures r@.len() == pieces(v).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == pieces(v)[i],
{ unimplemented!() }
pub open spec fn printed_until<V: ?Sized>(v: &V, n: int) -> Seq<Ev> { printed_evs(v).take(n) }
// The closure behind the writer, and the writer, which passes each piece on.
pub trait Out {
    spec fn got(&self) -> Seq<Seq<char>>;
    spec fn broken(&self) -> bool;
    fn call(&mut self, s: &str) -> (r: fmt::Result)
        requires !(*old(self)).broken(),
        ensures r.is_err() == (*final(self)).broken(), r.is_ok() ==> (*final(self)).got() == (*old(self)).got().push(s@);
}
pub struct Writer<F>(pub F);
impl<F: Out> Writer<F> {
//@fn sval | data::text::{impl<F: FnMut(&str) -> fmt::Result> fmt::Write for Writer<F>}::write_str
//@sub \(self\.0\)\( => self.0.call(
//@sub \|_\| fmt::Error => |_e: fmt::Error| fmt::Error
//@spec
    requires !(*old(self)).0.broken(),
    ensures r.is_err() == (*final(self)).0.broken(), r.is_ok() ==> (*final(self)).0.got() == (*old(self)).0.got().push(s@),
//@end
}
// (its closure, which borrows the stream mutably, is inlined)
//@fn sval | data::text::stream_display_fragments
//@sub value: impl fmt::Display => value: &V
//@sub stream:\s*&mut \(impl Stream<'sval> \+ \?Sized\) => stream: &mut S
//@sub (fn \w+)<'sval> => \1<'sval, S: Stream<'sval> + ?Sized, V: ?Sized>
//@sub \bWriter\(\|fragment: &str\|\s*((?s:.*))\)\.write_fmt\(format_args!\("\{0\}",\s*value\)\) => { let ghost s0 = stream.st(); let pieces_ = printed(value); let mut done_: fmt::Result = Ok(()); let mut i_: usize = 0; while i_ < pieces_.len() && done_.is_ok() invariant i_ <= pieces_@.len(), pieces_@.len() == pieces(value).len(), forall|i: int| 0 <= i < pieces_@.len() ==> (#[trigger] pieces_@[i])@ == pieces(value)[i], done_.is_err() == stream.st().broken, stream.st().lends == s0.lends, done_.is_ok() ==> stream.st().log =~= s0.log + printed_until(value, i_ as int), decreases pieces_.len() - i_, { let fragment: &str = pieces_[i_]; proof { assert(printed_until(value, i_ + 1) =~= printed_until(value, i_ as int).push(Ev::TextFragment(fragment@, false))); } done_ = \1; i_ = i_ + 1; } proof { assert(printed_until(value, pieces_@.len() as int) =~= lend(printed_evs(value), false)); } done_ }
//@sub \.map_err\(\|_\|\s*fmt::Error\) => .map_err(|_e: Error| fmt::Error)
//@sub \.map_err\(\|_\|\s*Error::new\(\)\) => .map_err(|_e: fmt::Error| Error::new())
//@spec
    requires !(*old(stream)).st().broken,
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(printed_evs(value), false)),
//@end
}
pub use prints::stream_display_fragments;
pub mod display {
use super::*;
broadcast use {lend_push, append_empty, append_assoc, lend_concat, lend_lend};
impl<V> Display<V> {
//@fn sval | data::text::{impl<V: fmt::Display> Display<V>}::new
//@spec
    ensures r.0 == value,
//@end
}
//@impl sval | data::text::{impl<V: fmt::Display> Value for Display<V>}
//@header impl<V> ValueStream for Display<V>
//@only stream
//@end
//@fn sval | data::text::stream_display
//@sub value: impl fmt::Display => value: V
//@sub (fn \w+)<'sval> => \1<'sval, V>
//@spec
    requires !(*old(stream)).st().broken,
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(display_evs(&value), false)),
//@end
}
