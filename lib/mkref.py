"""Writes specs/by_ref.rs: streaming through a shorter-lived reference (C13)."""
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CALL = r"//@sub crate::stream_ref\((\w+), (.*?)\)\? => stream_ref(\1, \2)?"
out = ["""// C13: streaming by reference sends what streaming the value sends (generated by lib/mkref.py).
use vstd::prelude::*;
verus! {
//@include stream.rs
//@include builtin.rs
pub fn slice_of<'a, T, const N: usize>(a: &'a [T; N]) -> (r: &'a [T]) ensures r@ == a@ { a }

// What the conversion methods of a value answer.
pub ghost struct Conv {
    pub tag: Option<Tag>, pub bool: Option<bool>, pub f32: Option<f32>, pub f64: Option<f64>,
    pub i8: Option<i8>, pub i16: Option<i16>, pub i32: Option<i32>, pub i64: Option<i64>, pub i128: Option<i128>,
    pub u8: Option<u8>, pub u16: Option<u16>, pub u32: Option<u32>, pub u64: Option<u64>, pub u128: Option<u128>,
    pub text: Option<Seq<char>>, pub binary: Option<Seq<u8>>,
}
pub open spec fn os(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn ob(o: Option<&[u8]>) -> Option<Seq<u8>> { match o { Some(s) => Some(s@), None => None } }
pub trait FullValue: ValueStream {
    spec fn conv(&self) -> Conv;
    fn tag(&self) -> (r: Option<Tag>) ensures r == self.conv().tag;
    fn to_bool(&self) -> (r: Option<bool>) ensures r == self.conv().bool;"""]
for t in "f32 f64 i8 i16 i32 i64 i128 u8 u16 u32 u64 u128".split():
    out.append(f"    fn to_{t}(&self) -> (r: Option<{t}>) ensures r == self.conv().{t};")
out.append("""    fn to_text(&self) -> (r: Option<&str>) ensures os(r) == self.conv().text;
    fn to_binary(&self) -> (r: Option<&[u8]>) ensures ob(r) == self.conv().binary;
}
impl<'a, T: Value + ?Sized> Value for &'a T { open spec fn evs(&self) -> Seq<Ev> { (**self).evs() } }
impl<T: Value + ?Sized> Value for Box<T> { open spec fn evs(&self) -> Seq<Ev> { (**self).evs() } }

// The trait: the events of the value itself, lent for as long as the stream asks ('sval).
pub trait ValueRef<'sval>: Value {
    fn stream_ref<S: Stream<'sval> + ?Sized>(&self, stream: &mut S) -> (r: Result)
        requires !(*old(stream)).st().broken,
        ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(self.evs(), (*old(stream)).st().lends));
}
pub struct Ref<V: ?Sized>(pub V);
impl<V: Value> Value for Ref<V> { open spec fn evs(&self) -> Seq<Ev> { self.0.evs() } }

pub mod wrapper {
use super::*;
broadcast use {lend_lend, append_empty};
impl<V> Ref<V> {
//@fn sval_ref | {impl<V> Ref<V>}::new
//@spec
    ensures r.0 == value,
//@end
//@fn sval_ref | {impl<V> Ref<V>}::inner
//@spec
    ensures *r == self.0,
//@end
//@fn sval_ref | {impl<V> Ref<V>}::into_inner
//@spec
    ensures r == self.0,
//@end
}
//@fn sval_ref | to_ref
//@sub sval::Value => Value
//@spec
    ensures r.0 == value,
//@end
//@impl sval_ref | {impl<V: sval::Value> sval::Value for Ref<V>}
//@header impl<V: ValueStream> ValueStream for Ref<V>
//@only stream
//@end
//@impl sval_ref | {impl<V: sval::Value> sval::Value for Ref<V>}
//@header impl<V: FullValue> FullValue for Ref<V>
//@skip stream
//@sub sval::Tag => Tag
//@ghost
    open spec fn conv(&self) -> Conv { self.0.conv() }
//@end
//@impl sval_ref | {impl<'sval, V: sval::Value + ?Sized> ValueRef<'sval> for Ref<&'sval V>}
//@header impl<'sval, V: ValueStream + ?Sized> ValueRef<'sval> for Ref<&'sval V>
//@end
//@impl sval_ref | {impl<'sval, 'a, T: ValueRef<'sval> + ?Sized> ValueRef<'sval> for &'a T}
//@end
//@impl sval_ref | alloc_support::{impl<'sval, T: ValueRef<'sval> + ?Sized> ValueRef<'sval> for Box<T>}
//@end
}
pub use wrapper::*;

//@fn sval_ref | stream_ref
//@spec
    requires !(*old(stream)).st().broken,
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(value.evs(), (*old(stream)).st().lends)),
//@end

pub mod seqs {
use super::*;
broadcast use {lend_push, append_empty, append_assoc, lend_concat, seq_items_all};
//@impl sval_ref | seq::{impl<'sval, T: ValueRef<'sval>> ValueRef<'sval> for [T]}
//@sub crate::stream_ref => stream_ref
//@loop 0 stream_ref
    invariant
        !(*stream).st().broken,
        (*stream).st().lends == (*old(stream)).st().lends,
        (*stream).st().log =~= (*old(stream)).st().log
            + lend(seq![Ev::SeqBegin(Some(self@.len() as usize))] + seq_items(self@.take(it.index@)), (*old(stream)).st().lends),
//@looptail 0 stream_ref
    proof {
        seq_items_push(self@.take(it.index@), *elem);
        assert(self@.take(it.index@ + 1) =~= self@.take(it.index@).push(*elem));
    }
//@end
//@impl sval_ref | seq::{impl<'sval, T: ValueRef<'sval>, const N: usize> ValueRef<'sval> for [T; N]}
//@sub crate::stream_ref => stream_ref
//@sub self\\.len\\(\\) => slice_of(self).len()
//@sub \\bin (it:\\s*)?self\\b => in \\1 slice_of(self).iter()
//@loop 0 stream_ref
    invariant
        !(*stream).st().broken,
        (*stream).st().lends == (*old(stream)).st().lends,
        (*stream).st().log =~= (*old(stream)).st().log
            + lend(seq![Ev::TaggedBegin(Some(tags::CONSTANT_SIZE), None, None)] + (seq![Ev::SeqBegin(Some(self@.len() as usize))] + seq_items(self@.take(it.index@))), (*old(stream)).st().lends),
//@looptail 0 stream_ref
    proof {
        seq_items_push(self@.take(it.index@), *elem);
        assert(self@.take(it.index@ + 1) =~= self@.take(it.index@).push(*elem));
    }
//@end
//@impl sval_ref | seq::alloc_support::{impl<'sval, T: ValueRef<'sval>> ValueRef<'sval> for Vec<T>}
//@sub \\(&\\*\\*self\\) => self.as_slice()
//@end
}
pub mod tuples {
use super::*;""")
import re
src = open(os.path.join(ROOT, "specs", "tuples.rs")).read()
head = src[src.index("pub open spec fn tuple_item"):src.index("impl<T0: Value> Value for (T0,)")]
out.append(head.rstrip())
for n in range(1, 17):
    g = ", ".join(f"T{i}: ValueRef<'sval>" for i in range(n))
    gv = ", ".join(f"T{i}: Value" for i in range(n))
    t = ", ".join(f"T{i}" for i in range(n)) + ","
    evs = f"tuple_begin({n})"
    steps = [f"tuple_first(o, {n}, l);"]
    for i in range(n):
        steps.append(f"tuple_step(o, {evs}, l, {i}, self.{i}.evs());")
        evs = f"({evs} + tuple_item({i}, self.{i}.evs()))"
    steps.append(f"tuple_last(o, {evs}, l);")
    out.append(f"impl<{gv}> Value for ({t}) {{\n    open spec fn evs(&self) -> Seq<Ev> {{ {evs} + tuple_end() }}\n}}")
    out.append(f"//@impl sval_ref | seq::{{impl<'sval, {g}> ValueRef<'sval> for ({t})}}\n//@sub crate::stream_ref => stream_ref\n//@sub sval::tags => tags\n//@head stream_ref\n"
               "    proof {\n        let o = (*old(stream)).st().log;\n        let l = (*old(stream)).st().lends;\n        "
               + "\n        ".join(steps) + "\n    }\n//@end")
out.append("}\n}\nfn main() {}")
open(os.path.join(ROOT, "specs", "by_ref.rs"), "w").write("\n".join(out) + "\n")
