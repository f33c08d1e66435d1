H("finish_with", "    ensures match (old(self).state, r_) { (State::Done(Some(Ok(o))), Ok(_)) => r matches Ok(o2) && o2 == o, _ => r is Err },\n", r"""//@sub \|_\|\s*(Error::\w+\("[^"]*"\)) => |_e: sval::Error| -> (q: Error) { \1 }
//@sub (fn finish_with\(&mut self,\s*)r: => \1r_:
//@sub \br\.map_err => r_.map_err
""")
w("}\n")  # impl
w(r'''
#[verifier::external_body] pub fn stream_number<'sval, S: Stream<'sval>, N: sval::Printed>(stream: &mut FlatStream<'sval, S>, v: N) -> (r: sval::Result)
    ensures drove(*old(stream), *final(stream), r.is_ok(), v.digits(), false), { unimplemented!() }
#[verifier::external_body] pub fn stream_ref<'sval, S: Stream<'sval>, V: sval_ref::ValueRef<'sval>>(stream: &mut FlatStream<'sval, S>, v: V) -> (r: sval::Result)
    ensures drove(*old(stream), *final(stream), r.is_ok(), v.evs(), v.fails()), v.fails() ==> r.is_err(), { unimplemented!() }
}
pub mod dflt {
pub mod sval { pub use super::super::super::*; }
use super::super::{Value, NCall, made, norm, doc, well, Ev, olo, oio, ot, ol, oi, cl_tag, cl_label, widened, widen, text_evs, lend, Printed, tags};
use super::super::sval_ref::{self, ValueRef};
use super::{Stream, StreamSeq, StreamMap, StreamTuple, StreamRecord, StreamEnum, Error, Result};
use super::flat::{self, FlatStream};
use vstd::prelude::*;
''')
def D(name, spec, pre=""):
    w(f"//@fn sval_nested | default_stream::{name}\n//@as d_{name}\n{pre}//@spec\n{spec}//@end\n")
    SPECS.append((name, spec))
SPECS = []
def one(call, fails="false"):
    return f"    ensures r matches Ok(o) ==> made(o) == {call}, stream.steady() && !{fails} ==> r.is_ok(),\n"
DOC = "    ensures well(value.evs()) ==> (r matches Ok(o) ==> doc(value.evs()) == Some(made(o))) && (stream.steady() && !value.fails() && doc(value.evs()) is Some ==> r.is_ok()), value.fails() ==> r.is_err(),\n"
D("value", DOC, "//@sub sval_ref::stream_ref => flat::stream_ref\n")
D("value_ref", DOC)
D("value_computed", DOC, "//@sub sval::default_stream::value_computed => flat::default_stream::value_computed\n")
for p in ("i8 i16", "i16 i32", "i32 i64", "u8 u16", "u16 u32", "u32 u64", "u64 u128"):
    a, b = p.split()
    D(a, one(f"seq![NCall::{b.upper()}(value as {b})]"))
for t in ("i128", "u128"):
    D(t, f"    ensures match r {{ Ok(o) => if i64::MIN <= value <= i64::MAX {{ made(o) == seq![NCall::I64(value as i64)] }} else {{ well(value.digits()) ==> doc(value.digits()) == Some(made(o)) }},\n        Err(_) => stream.steady() ==> !(i64::MIN <= value <= i64::MAX) && (well(value.digits()) ==> doc(value.digits()) is None) }},\n", "//@sub sval::stream_number => flat::stream_number\n")
D("f32", one("seq![NCall::F64(widened(value))]"), "//@sub \\bvalue as f64 => widen(value)\n")
D("text", one("seq![NCall::Text(text@)]"))
D("binary", one("seq![NCall::Binary(binary@)]"))
w(r'''
pub open spec fn elements(b: Seq<u8>) -> Seq<NCall> { Seq::new(b.len(), |i: int| NCall::Element(norm(seq![Ev::U8(b[i])]))) }
''')
D("binary_computed", one("(seq![NCall::Seq(Some(binary@.len() as usize))] + elements(binary@)).push(NCall::End)"), r'''//@loop 0
    invariant
        seq.calls() == seq![NCall::Seq(Some(binary@.len() as usize))] + elements(binary@.take(it.index@)), stream.steady() ==> seq.steady(),
//@looptail 0
    proof { assert(seq![NCall::Seq(Some(binary@.len() as usize))] + elements(binary@.take(it.index@ + 1)) =~= (seq![NCall::Seq(Some(binary@.len() as usize))] + elements(binary@.take(it.index@))).push(NCall::Element(norm(seq![Ev::U8(*b)])))); }
''')

# ---- tags, and what goes on to another method
TEV = "(if ot(T) == Some(tags::RUST_OPTION_NONE) || ol(L) is None { seq![Ev::Null] } else { text_evs(ol(L).unwrap().text) })"
w("//@use sval_nested | default_stream::tag::{body}::Tag\n")
w("impl<'a> Value for Tag<'a> { closed spec fn evs(&self) -> Seq<Ev> { " + TEV.replace("T)", "self.tag)").replace("L)", "self.label)") + " } closed spec fn fails(&self) -> bool { false } }\nimpl<'a, 'sval> ValueRef<'sval> for Tag<'a> {}\n")
D("tag", one(f"seq![NCall::Tagged(tag, olo(label), oio(index), norm({TEV.replace('ot(T)', 'tag').replace('ol(L)', 'olo(label)')}))]"), "//@hoisted\n//@sub \\btag\\.clone\\(\\) => cl_tag(tag.as_ref())\n//@sub \\blabel\\.clone\\(\\) => cl_label(label.as_ref())\n")
w(f"""impl<'a> Tag<'a> {{
//@fn sval_nested | default_stream::tag::{{body}}::{{impl<'a, 'sval> ValueRef<'sval> for Tag<'a>}}::stream_ref
//@sub fn stream_ref<S => fn stream_ref<'sval, S
//@sub Some\\(&sval::tags::RUST_OPTION_NONE\\) = self\\.tag => true = is_none_tag(self.tag)
//@spec
    ensures r.is_ok() ==> (*final(stream)).log() == (*old(stream)).log() + lend(self.evs(), false),
//@end
//@fn sval_nested | default_stream::tag::{{body}}::{{impl<'a> sval::Value for Tag<'a>}}::stream
//@sub fn stream<'sval => fn stream_<'sval
//@spec
    ensures r.is_ok() ==> (*final(stream)).log() == (*old(stream)).log() + lend(self.evs(), false),
//@end
}}
pub fn is_none_tag(o: Option<&sval::Tag>) -> (r: bool) ensures r == (ot(o) == Some(tags::RUST_OPTION_NONE)), {{ match o {{ Some(t) => t.id == tags::RUST_OPTION_NONE.id, None => false }} }}
""")
AE_ = "tag, olo(label), oio(index)"
for m in ("tagged", "tagged_ref"):
    D(m, one(f"seq![NCall::Tagged({AE_}, norm(value.evs()))]", "value.fails()"))
D("tagged_computed", DOC)
for m in ("enum_tagged", "enum_tagged_ref"):
    D(m, one(f"stream.head().push(NCall::Tagged({AE_}, norm(value.evs())))", "value.fails()"))
def itm(s, v, call): return f"    ensures r.is_ok() ==> (*final({s})).calls() == (*old({s})).calls().push({call}), (*final({s})).steady() == (*old({s})).steady(), (*old({s})).steady() && !{v}.fails() ==> r.is_ok(), {v}.fails() ==> r.is_err(),\n"
for sfx in ("", "_ref"):
    D("seq_value" + sfx, itm("seq", "value", "NCall::Element(norm(value.evs()))"), "//@sub \\+ \\?Sized, V => , V\n")
    D("map_key" + sfx, itm("map", "key", "NCall::Key(norm(key.evs()))"), "//@sub \\+ \\?Sized, V => , V\n")
    D("map_value" + sfx, itm("map", "value", "NCall::Value(norm(value.evs()))"), "//@sub \\+ \\?Sized, V => , V\n")
    D("tuple_value" + sfx, itm("tuple", "value", "NCall::TField(tag, index@, norm(value.evs()))"), "//@sub \\+ \\?Sized, V => , V\n")
    D("record_value" + sfx, itm("record", "value", "NCall::RField(tag, label@, norm(value.evs()))"), "//@sub \\+ \\?Sized, V => , V\n")

# ---- the provided methods of the traits, which go there
def P(trait, m, d, old):
    spec = dict(SPECS)[d]
    spec = re.sub(rf"\b{old}\b(?!:)", "self_", spec)
    w(f"""//@fn sval_nested | {trait}::{m}
//@as p_{d}
//@sub fn (\\w+)<(V: [^(]*)>\\(\\s*self\\b => fn \\1<'sval, S: {trait}<'sval>, \\2>(self_: S
//@sub fn (\\w+)\\(\\s*self\\b => fn \\1<'sval, S: {trait}<'sval>>(self_: S
//@sub fn (\\w+)<(V: [^(]*)>\\(\\s*&mut self\\b => fn \\1<'sval, S: {trait}<'sval>, \\2>(self_: &mut S
//@sub \\bwhere\\s+Self: Sized,? =>
//@sub \\bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \\bself\\b => self_
//@spec
{spec}//@end
""")
for m in "value value_ref value_computed i8 i16 i32 i128 u8 u16 u32 u64 u128 f32 text binary binary_computed tag tagged tagged_ref".split():
    P("Stream", m, m, "stream")
for t, k, m in (("StreamSeq", "seq", "value"), ("StreamMap", "map", "key"), ("StreamMap", "map", "value"), ("StreamTuple", "tuple", "value"), ("StreamRecord", "record", "value")):
    for sfx in ("", "_ref"):
        P(t, m + sfx, f"{k}_{m}{sfx}", k)
P("StreamEnum", "tagged", "enum_tagged", "stream")
P("StreamEnum", "tagged_ref", "enum_tagged_ref", "stream")
# ---- the entry points
for m in ("stream", "stream_ref", "stream_computed"):
    w(f"//@fn sval_nested | {m}\n//@as e_{m}\n//@spec\n{DOC}//@end\n")
w("//@fn sval_nested | owned_label_ref\n//@spec\n    ensures r matches Ok(l) && l@ == label@,\n//@end\n//@fn sval_nested | owned_label\n//@spec\n    ensures r matches Ok(l) && l@ == label@,\n//@end\n")
w("}\n")
