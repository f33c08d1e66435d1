"""Writes specs/buffer.rs: the buffer of whole values (C05, C06, and C13 for the buffered value)."""
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "value::{impl<'sval> ValueBuf<'sval>}::"
ST = "value::{impl<'sval> sval::Stream<'sval> for ValueBuf<'sval>}"

SCALARS = [("null", "Null", None), ("bool", "Bool", "bool")] + [(t, t.upper(), t) for t in "u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64".split()]
# variant -> (fields besides len, begin event, end event)
T3 = "tag, olv(label), oiv(index)"
CONT = {
    "Map": ("num_entries_hint", "Ev::MapBegin(num_entries_hint)", "Ev::MapEnd"),
    "MapKey": ("", "Ev::MapKeyBegin", "Ev::MapKeyEnd"),
    "MapValue": ("", "Ev::MapValueBegin", "Ev::MapValueEnd"),
    "Seq": ("num_entries_hint", "Ev::SeqBegin(num_entries_hint)", "Ev::SeqEnd"),
    "SeqValue": ("", "Ev::SeqValueBegin", "Ev::SeqValueEnd"),
    "Enum": ("tag, label, index", f"Ev::EnumBegin({T3})", f"Ev::EnumEnd({T3})"),
    "Tagged": ("tag, label, index", f"Ev::TaggedBegin({T3})", f"Ev::TaggedEnd({T3})"),
    "Record": ("tag, label, index, num_entries", f"Ev::RecordBegin({T3}, num_entries)", f"Ev::RecordEnd({T3})"),
    "RecordValue": ("tag, label", "Ev::RecordValueBegin(tag, label@)", "Ev::RecordValueEnd(tag, label@)"),
    "Tuple": ("tag, label, index, num_entries", f"Ev::TupleBegin({T3}, num_entries)", f"Ev::TupleEnd({T3})"),
    "TupleValue": ("tag, index", "Ev::TupleValueBegin(tag, index@)", "Ev::TupleValueEnd(tag, index@)"),
    "RecordTuple": ("tag, label, index, num_entries", f"Ev::RecordTupleBegin({T3}, num_entries)", f"Ev::RecordTupleEnd({T3})"),
    "RecordTupleValue": ("tag, label, index", "Ev::RecordTupleValueBegin(tag, label@, index@)", "Ev::RecordTupleValueEnd(tag, label@, index@)"),
}

out = []
w = out.append
w("""// C05, C06: a buffered value holds exactly what it was given (generated by lib/mkbuffer.py).
use vstd::prelude::*;
verus! {
//@include stream.rs
//@include builtin.rs
impl Clone for Index {
    #[verifier::external_body]
    fn clone(&self) -> (r: Index) ensures r@ == self@ { unimplemented!() }
}
pub struct OwnError(pub ());
impl<'a> Label<'a> {
    // discharged by specs/index.rs (C10)
    #[verifier::external_body]
    pub fn try_to_owned(&self) -> (r: core::result::Result<Label<'static>, Error>)
        ensures r.is_ok(), r->Ok_0@ == self@,
    { unimplemented!() }
}
pub mod sval { pub use super::*; }

pub mod value {
use super::{sval, Seq, Ev, St, lend, lend1, sent, text_evs, computed_text_evs, binary_evs, LabelV, IndexV, Tag, Label, Index, ot, ol, oi};
use super::sval::Stream as _;
use super::{lend_push, lend_lend, append_empty, append_assoc, lend_concat, lend_append};
use vstd::prelude::*;
use core::marker::PhantomData;
use core::ops::Range;
pub type Result<T, E> = core::result::Result<T, E>;
pub struct Error(());
impl Error {
    #[verifier::external_body] pub fn unsupported(_a: &str, _b: &str) -> Error { unimplemented!() }
    #[verifier::external_body] pub fn invalid_value(_a: &str) -> Error { unimplemented!() }
    #[verifier::external_body] pub fn outside_container(_a: &str) -> Error { unimplemented!() }
    #[verifier::external_body] pub fn no_alloc(_a: &str) -> Error { unimplemented!() }
}
pub open spec fn olv(o: Option<Label<'static>>) -> Option<LabelV> { match o { Some(t) => Some(t@), None => None } }
pub open spec fn oiv(o: Option<Index>) -> Option<IndexV> { match o { Some(t) => Some(t@), None => None } }

// `Option::cloned` and the spelling of an optional label made owned.
pub fn cloned_tag(o: Option<&Tag>) -> (r: Option<Tag>) ensures r == ot(o) { match o { Some(t) => Some(*t), None => None } }
pub fn cloned_index(o: Option<&Index>) -> (r: Option<Index>) ensures oiv(r) == oi(o) { match o { Some(t) => Some(t.clone()), None => None } }
pub fn owned_label(o: Option<&Label>) -> (r: Result<Option<Label<'static>>, Error>) ensures r.is_ok(), olv(r->Ok_0) == ol(o) {
    match o { Some(label) => Ok(Some(label.try_to_owned().map_err(|_e: sval::Error| Error::no_alloc("owned label"))?)), None => Ok(None) }
}

// Text and binary content: these contracts are discharged by specs/fragments.rs (C07).
#[verifier::external_body]
pub struct TextBuf<'sval> { p: PhantomData<&'sval ()> }
impl<'sval> TextBuf<'sval> {
    pub uninterp spec fn content(&self) -> Seq<char>;
    pub uninterp spec fn lent(&self) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: TextBuf<'sval>) ensures r.content() == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_fragment(&mut self, fragment: &'sval str) -> (r: Result<(), Error>)
        ensures r.is_ok(), (*final(self)).content() == (*old(self)).content() + fragment@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push_fragment_computed(&mut self, fragment: &str) -> (r: Result<(), Error>)
        ensures r.is_ok(), (*final(self)).content() == (*old(self)).content() + fragment@ { unimplemented!() }
    #[verifier::external_body]
    pub fn stream_ref<S: sval::Stream<'sval> + ?Sized>(&self, stream: &mut S) -> (r: sval::Result)
        requires !(*old(stream)).st().broken,
        ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(text_of(*self), (*old(stream)).st().lends)) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_owned_in_place(&mut self) -> (r: &mut TextBuf<'static>)
        ensures r.content() == (*old(self)).content(), (*final(self)).content() == (*final(r)).content(), !r.lent(), !(*final(r)).lent() ==> !(*final(self)).lent(), { unimplemented!() }
}
pub open spec fn text_of(t: TextBuf) -> Seq<Ev> { lend(text_evs(t.content()), t.lent()) }
#[verifier::external_body]
pub struct BinaryBuf<'sval> { p: PhantomData<&'sval ()> }
impl<'sval> BinaryBuf<'sval> {
    pub uninterp spec fn content(&self) -> Seq<u8>;
    pub uninterp spec fn lent(&self) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: BinaryBuf<'sval>) ensures r.content() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_fragment(&mut self, fragment: &'sval [u8]) -> (r: Result<(), Error>)
        ensures r.is_ok(), (*final(self)).content() == (*old(self)).content() + fragment@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push_fragment_computed(&mut self, fragment: &[u8]) -> (r: Result<(), Error>)
        ensures r.is_ok(), (*final(self)).content() == (*old(self)).content() + fragment@ { unimplemented!() }
    #[verifier::external_body]
    pub fn stream_ref<S: sval::Stream<'sval> + ?Sized>(&self, stream: &mut S) -> (r: sval::Result)
        requires !(*old(stream)).st().broken,
        ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(binary_of(*self), (*old(stream)).st().lends)) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_owned_in_place(&mut self) -> (r: &mut BinaryBuf<'static>)
        ensures r.content() == (*old(self)).content(), (*final(self)).content() == (*final(r)).content(), !r.lent(), !(*final(r)).lent() ==> !(*final(self)).lent(), { unimplemented!() }
}
pub open spec fn binary_of(t: BinaryBuf) -> Seq<Ev> { lend(binary_evs(t.content()), t.lent()) }

// The parts of a buffer.
//@use sval_buffer | value::ValueKind
pub struct ValuePart<'sval> { pub kind: ValueKind<'sval> }
pub struct ValueSlice<'sval>(pub [ValuePart<'sval>]);
pub struct BufMut<T, const N: usize> { pub inner: Vec<T> }
pub struct Buf<T, const N: usize> { pub inner: Box<[T]> }
pub struct ValueBuf<'sval> {
    pub parts: BufMut<ValuePart<'sval>, 1>,
    pub stack: BufMut<usize, 1>,
    pub is_in_text_or_binary: bool,
    pub err: Option<Error>,
    pub _marker: PhantomData<&'sval ()>,
}
pub struct Value<'sval> {
    pub parts: Buf<ValuePart<'sval>, 1>,
    pub _marker: PhantomData<&'sval ()>,
}

// What a part stands for.
pub open spec fn clen(k: ValueKind) -> Option<usize> {
    match k {""")
for v in CONT:
    w(f"        ValueKind::{v} {{ len, .. }} => Some(len),")
w("        _ => None,\n    }\n}")
w("pub open spec fn with_len<'a>(k: ValueKind<'a>, n: usize) -> ValueKind<'a> {\n    match k {")
for v, (f, _, _) in CONT.items():
    fs = (", " + f) if f else ""
    w(f"        ValueKind::{v} {{ len{fs} }} => ValueKind::{v} {{ len: n{fs} }},")
w("        _ => k,\n    }\n}")
for name, pos in (("begin1", 1), ("end1", 2)):
    w(f"pub open spec fn {name}(k: ValueKind) -> Ev {{\n    match k {{")
    for v, c in CONT.items():
        fs = (", " + c[0]) if c[0] else ""
        w(f"        ValueKind::{v} {{ len{fs} }} => {c[pos]},")
    w("        _ => Ev::Null,\n    }\n}")
w("pub open spec fn leaf(k: ValueKind) -> Seq<Ev> {\n    match k {")
for m, v, t in SCALARS:
    w(f"        ValueKind::{v}(v) => seq![Ev::{v}(v)]," if t else f"        ValueKind::{v} => seq![Ev::{v}],")
w("""        ValueKind::Text(t) => text_of(t),
        ValueKind::Binary(t) => binary_of(t),
        ValueKind::Tag { tag, label, index } => seq![Ev::Tag(tag, olv(label), oiv(index))],
        ValueKind::TagHint { tag } => seq![Ev::TagHint(tag)],
        _ => seq![],
    }
}
//@include got.rs

// A run of parts with nothing left open, and the events it stands for.
pub open spec fn whole(p: Seq<ValuePart>) -> bool
    decreases p.len(),
{
    p.len() == 0 || match clen(p[0].kind) {
        Some(n) => 1 + n <= p.len() && whole(p.subrange(1, 1 + n)) && whole(p.skip(1 + n)),
        None => whole(p.skip(1)),
    }
}
pub open spec fn out(p: Seq<ValuePart>) -> Seq<Ev>
    decreases p.len(),
{
    if p.len() == 0 { seq![] } else {
        match clen(p[0].kind) {
            Some(n) => if 1 + n <= p.len() { seq![begin1(p[0].kind)] + out(p.subrange(1, 1 + n)) + seq![end1(p[0].kind)] + out(p.skip(1 + n)) } else { seq![] },
            None => leaf(p[0].kind) + out(p.skip(1)),
        }
    }
}
// A buffer in the middle of a value: `st` are the positions of the containers still open.
pub open spec fn opened(p: Seq<ValuePart>, st: Seq<usize>) -> bool
    decreases st.len(),
{
    if st.len() == 0 { whole(p) } else {
        let s = st.last() as int;
        s < p.len() && clen(p[s].kind) == Some(0usize) && whole(p.skip(s + 1)) && opened(p.take(s), st.drop_last())
    }
}
pub open spec fn got(p: Seq<ValuePart>, st: Seq<usize>) -> Seq<Ev>
    decreases st.len(),
{
    if st.len() == 0 { out(p) } else {
        let s = st.last() as int;
        got(p.take(s), st.drop_last()) + seq![begin1(p[s].kind)] + out(p.skip(s + 1))
    }
}
pub open spec fn opens(p: Seq<ValuePart>, st: Seq<usize>) -> Seq<Ev>
    decreases st.len(),
{
    if st.len() == 0 { seq![] } else { opens(p.take(st.last() as int), st.drop_last()).push(begin1(p[st.last() as int].kind)) }
}

pub proof fn whole_add(a: Seq<ValuePart>, b: Seq<ValuePart>)
    requires whole(a), whole(b),
    ensures whole(a + b), out(a + b) == out(a) + out(b),
    decreases a.len(),
{
    broadcast use append_assoc;
    if a.len() == 0 { assert(a + b =~= b); assert(out(a) + out(b) =~= out(b)); } else {
        assert((a + b)[0] == a[0]);
        match clen(a[0].kind) {
            Some(n) => {
                whole_add(a.skip(1 + n), b);
                assert((a + b).subrange(1, 1 + n) =~= a.subrange(1, 1 + n));
                assert((a + b).skip(1 + n) =~= a.skip(1 + n) + b);
                assert(out(a + b) =~= out(a) + out(b));
            }
            None => {
                whole_add(a.skip(1), b);
                assert((a + b).skip(1) =~= a.skip(1) + b);
                assert(out(a + b) =~= out(a) + out(b));
            }
        }
    }
}
pub proof fn opened_add(p: Seq<ValuePart>, st: Seq<usize>, b: Seq<ValuePart>)
    requires opened(p, st), whole(b),
    ensures opened(p + b, st), got(p + b, st) == got(p, st) + out(b), opens(p + b, st) == opens(p, st),
{
    if st.len() == 0 { whole_add(p, b); } else {
        let s = st.last() as int;
        assert((p + b).take(s) =~= p.take(s));
        assert((p + b).skip(s + 1) =~= p.skip(s + 1) + b);
        whole_add(p.skip(s + 1), b);
        assert(got(p + b, st) =~= got(p, st) + out(b));
    }
}
pub proof fn one_leaf(k: ValuePart)
    requires clen(k.kind) is None,
    ensures whole(seq![k]), out(seq![k]) == leaf(k.kind),
{
    assert(seq![k].skip(1) =~= Seq::<ValuePart>::empty());
    assert(whole(Seq::<ValuePart>::empty()));
    assert(leaf(k.kind) + out(Seq::<ValuePart>::empty()) =~= leaf(k.kind));
}
pub proof fn push_leaf(p: Seq<ValuePart>, st: Seq<usize>, k: ValuePart)
    requires opened(p, st), clen(k.kind) is None,
    ensures opened(p.push(k), st), got(p.push(k), st) == got(p, st) + leaf(k.kind), opens(p.push(k), st) == opens(p, st),
{
    one_leaf(k);
    opened_add(p, st, seq![k]);
    assert(p + seq![k] =~= p.push(k));
}
pub proof fn push_open(p: Seq<ValuePart>, st: Seq<usize>, k: ValuePart, n: usize)
    requires opened(p, st), clen(k.kind) == Some(0usize), n == p.len(),
    ensures opened(p.push(k), st.push(n)), got(p.push(k), st.push(n)) == got(p, st) + seq![begin1(k.kind)],
        opens(p.push(k), st.push(n)) == opens(p, st).push(begin1(k.kind)),
{
    assert(st.push(n).drop_last() =~= st);
    assert(p.push(k).take(n as int) =~= p);
    assert(p.push(k).skip(n + 1) =~= Seq::<ValuePart>::empty());
    assert(got(p.push(k), st.push(n)) =~= got(p, st) + seq![begin1(k.kind)]);
}
pub proof fn close_top(p: Seq<ValuePart>, st: Seq<usize>, k: ValuePart, n: usize)
    requires opened(p, st), st.len() > 0, n == p.len() - st.last() - 1, k.kind == with_len(p[st.last() as int].kind, n),
    ensures opened(p.update(st.last() as int, k), st.drop_last()),
        got(p.update(st.last() as int, k), st.drop_last()) == got(p, st) + seq![end1(k.kind)],
        opens(p.update(st.last() as int, k), st.drop_last()) == opens(p, st).drop_last(),
        opens(p, st).last() == begin1(k.kind), end_of(opens(p, st).last()) == Some(end1(k.kind)), opens(p, st).len() > 0,
{
    let s = st.last() as int;
    let body = p.skip(s + 1);
    let b = seq![k] + body;
    assert(p.update(s, k) =~= p.take(s) + b);
    assert(b.subrange(1, 1 + n) =~= body);
    assert(b.skip(1 + n) =~= Seq::<ValuePart>::empty());
    assert(whole(Seq::<ValuePart>::empty()) && out(Seq::<ValuePart>::empty()) =~= seq![]);
    assert(b[0] == k && clen(k.kind) == Some(n));
    assert(whole(b));
    assert(out(b) =~= seq![begin1(k.kind)] + out(body) + seq![end1(k.kind)]);
    opened_add(p.take(s), st.drop_last(), b);
    assert(got(p, st) + seq![end1(k.kind)] =~= got(p.take(s), st.drop_last()) + out(b));
    assert(opens(p, st).drop_last() =~= opens(p.take(s), st.drop_last()));
}
// replacing one leaf by another leaves the structure alone
pub proof fn whole_set(p: Seq<ValuePart>, i: int, k: ValuePart)
    requires whole(p), 0 <= i < p.len(), clen(k.kind) == clen(p[i].kind),
    ensures whole(p.update(i, k)),
    decreases p.len(),
{
    let q = p.update(i, k);
    match clen(p[0].kind) {
        Some(n) => {
            if i == 0 {
                assert(q.subrange(1, 1 + n) =~= p.subrange(1, 1 + n)); assert(q.skip(1 + n) =~= p.skip(1 + n));
            } else if i < 1 + n {
                whole_set(p.subrange(1, 1 + n), i - 1, k);
                assert(q.subrange(1, 1 + n) =~= p.subrange(1, 1 + n).update(i - 1, k)); assert(q.skip(1 + n) =~= p.skip(1 + n));
            } else {
                whole_set(p.skip(1 + n), i - 1 - n, k);
                assert(q.subrange(1, 1 + n) =~= p.subrange(1, 1 + n)); assert(q.skip(1 + n) =~= p.skip(1 + n).update(i - 1 - n, k));
            }
        }
        None => if i == 0 { assert(q.skip(1) =~= p.skip(1)); } else {
            whole_set(p.skip(1), i - 1, k);
            assert(q.skip(1) =~= p.skip(1).update(i - 1, k));
        }
    }
}
pub proof fn opened_set(p: Seq<ValuePart>, st: Seq<usize>, i: int, k: ValuePart)
    requires opened(p, st), 0 <= i < p.len(), clen(k.kind) == clen(p[i].kind),
    ensures opened(p.update(i, k), st),
    decreases st.len(),
{
    let q = p.update(i, k);
    if st.len() == 0 { whole_set(p, i, k); } else {
        let s = st.last() as int;
        if i < s { opened_set(p.take(s), st.drop_last(), i, k); assert(q.take(s) =~= p.take(s).update(i, k)); assert(q.skip(s + 1) =~= p.skip(s + 1)); }
        else if i == s { assert(q.take(s) =~= p.take(s)); assert(q.skip(s + 1) =~= p.skip(s + 1)); }
        else { whole_set(p.skip(s + 1), i - s - 1, k); assert(q.take(s) =~= p.take(s)); assert(q.skip(s + 1) =~= p.skip(s + 1).update(i - s - 1, k)); }
    }
}
// an incomplete buffer can still be walked
pub proof fn opened_whole(p: Seq<ValuePart>, st: Seq<usize>)
    requires opened(p, st),
    ensures whole(p),
    decreases st.len(),
{
    if st.len() > 0 {
        let s = st.last() as int;
        opened_whole(p.take(s), st.drop_last());
        let rest = p.skip(s);
        assert(rest.subrange(1, 1) =~= Seq::<ValuePart>::empty());
        assert(whole(Seq::<ValuePart>::empty()));
        assert(rest.skip(1) =~= p.skip(s + 1));
        assert(whole(rest));
        whole_add(p.take(s), rest);
        assert(p.take(s) + rest =~= p);
    }
}


impl<'sval> ValueBuf<'sval> {
    pub open spec fn p(&self) -> Seq<ValuePart<'sval>> { self.parts.inner@ }
    pub open spec fn s(&self) -> Seq<usize> { self.stack.inner@ }
    // holds after every sequence of calls, failed ones included
    pub open spec fn wf(&self) -> bool { opened(self.p(), self.s()) }
    // holds after every sequence of calls a value can make
    pub open spec fn tame(&self) -> bool {
        self.is_in_text_or_binary ==> self.p().len() > 0 && (self.p().last().kind is Text || self.p().last().kind is Binary) && opened(self.p().drop_last(), self.s())
    }
    pub open spec fn g(&self) -> Got {
        if self.is_in_text_or_binary {
            Got { evs: lend(got(self.p().drop_last(), self.s()), false), open: opens(self.p().drop_last(), self.s()),
                text: match self.p().last().kind { ValueKind::Text(t) => Some(t.content()), _ => None },
                binary: match self.p().last().kind { ValueKind::Binary(t) => Some(t.content()), _ => None } }
        } else {
            Got { evs: lend(got(self.p(), self.s()), false), open: opens(self.p(), self.s()), text: None, binary: None }
        }
    }
}
pub open spec fn told(a: ValueBuf, b: ValueBuf, ok: bool, e: Ev) -> bool {
    &&& b.wf()
    &&& a.tame() && fits(a.g(), e) ==> ok && b.tame() && b.g() == feed(a.g(), e)
    &&& ok ==> b.s().len() == depth(a.s().len() as int, e)
    &&& is_end(e) && a.s().len() == 0 ==> !ok
    &&& b.is_in_text_or_binary == match e {
            Ev::TextBegin(_) | Ev::BinaryBegin(_) => true,
            Ev::TextEnd | Ev::BinaryEnd => false,
            _ => a.is_in_text_or_binary,
        }
}

// Nothing but text and binary content is rewritten ...
pub open spec fn structural(e: Ev) -> bool {
    match e { Ev::TextBegin(_) | Ev::TextFragment(..) | Ev::TextEnd | Ev::BinaryBegin(_) | Ev::BinaryFragment(..) | Ev::BinaryEnd => false, _ => true }
}
pub proof fn same_structure(g: Got, e: Seq<Ev>)
    requires forall|i: int| 0 <= i < e.len() ==> structural(#[trigger] e[i]),
    ensures run(g, e).evs == g.evs + e,
    decreases e.len(),
{
    if e.len() == 0 { assert(g.evs + e =~= g.evs); } else {
        same_structure(g, e.drop_last());
        assert(structural(e[e.len() - 1]));
        assert(g.evs + e =~= (g.evs + e.drop_last()).push(e.last()));
    }
}
// ... and text is joined: any fragments between a begin and an end become the text itself.
pub open spec fn fragments(s: Seq<Seq<char>>, l: Seq<bool>) -> Seq<Ev> { Seq::new(s.len(), |i: int| Ev::TextFragment(s[i], l[i])) }
pub open spec fn joined(s: Seq<Seq<char>>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { seq![] } else { joined(s.drop_last()) + s.last() } }
pub proof fn text_joined(g: Got, n: Option<usize>, s: Seq<Seq<char>>, l: Seq<bool>)
    requires idle(g), s.len() == l.len(),
    ensures run(g, seq![Ev::TextBegin(n)] + fragments(s, l)) == (Got { text: Some(joined(s)), ..g }),
    decreases s.len(),
{
    let e = seq![Ev::TextBegin(n)] + fragments(s, l);
    if s.len() == 0 {
        assert(e.drop_last() =~= seq![]);
        assert(run(g, e.drop_last()) == g);
        assert(e.last() == Ev::TextBegin(n));
    } else {
        text_joined(g, n, s.drop_last(), l.drop_last());
        assert(e.drop_last() =~= seq![Ev::TextBegin(n)] + fragments(s.drop_last(), l.drop_last()));
        assert(e.last() == Ev::TextFragment(s.last(), l.last()));
    }
}

// Slices through `Deref`: the buffer's own `deref` and `deref_mut` hand out `inner`.
impl<T, const N: usize> BufMut<T, N> {
    pub fn len(&self) -> (r: usize) ensures r == self.inner@.len() { self.inner.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.inner@.len() == 0) { self.inner.len() == 0 }
    #[verifier::external_body]
    pub fn get_mut(&mut self, i: usize) -> (r: Option<&mut T>)
        ensures match r {
            Some(x) => i < old(self).inner@.len() && *x == old(self).inner@[i as int] && final(self).inner@ == old(self).inner@.update(i as int, *final(x)),
            None => i >= old(self).inner@.len() && final(self).inner@ == old(self).inner@ }
    { self.inner.get_mut(i) }
    #[verifier::external_body]
    pub fn last_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r {
            Some(x) => 0 < old(self).inner@.len() && *x == old(self).inner@.last() && final(self).inner@ == old(self).inner@.update(old(self).inner@.len() - 1, *final(x)),
            None => 0 == old(self).inner@.len() && final(self).inner@ == old(self).inner@ }
    { self.inner.last_mut() }
//@fn sval_buffer | value::{impl<T, const N: usize> BufMut<T, N>}::push
//@spec
    ensures r.is_ok(), (*final(self)).inner@ == (*old(self)).inner@.push(value),
//@end
//@fn sval_buffer | value::{impl<T, const N: usize> BufMut<T, N>}::pop
//@spec
    ensures match r {
        Some(x) => 0 < old(self).inner@.len() && x == old(self).inner@.last() && final(self).inner@ == old(self).inner@.drop_last(),
        None => 0 == old(self).inner@.len() && final(self).inner@ == old(self).inner@ }
//@end
//@fn sval_buffer | value::{impl<T, const N: usize> BufMut<T, N>}::clear
//@spec
    ensures (*final(self)).inner@.len() == 0,
//@end
//@fn sval_buffer | value::{impl<T, const N: usize> Deref for BufMut<T, N>}::deref
//@sub &Self::Target => &[T]
//@sub &self\\.inner => self.inner.as_slice()
//@spec
    ensures r@ == self.inner@,
//@end
}
impl<T, const N: usize> Buf<T, N> {
//@fn sval_buffer | value::{impl<T, const N: usize> Deref for Buf<T, N>}::deref
//@sub &Self::Target => &[T]
//@spec
    ensures r@ == self.inner@,
//@end
//@fn sval_buffer | value::{impl<T, const N: usize> From<BufMut<T, N>> for Buf<T, N>}::from
//@sub value\\.inner\\.into_boxed_slice\\(\\) => boxed_slice(value.inner)
//@spec
    ensures r.inner@ == value.inner@,
//@end
}
#[verifier::external_body]
pub fn boxed_slice<T>(v: Vec<T>) -> (r: Box<[T]>) ensures r@ == v@ { v.into_boxed_slice() }
""")

INNER = """&mut ValueBuf<'sval> -> (q: Result<(), Error>)
    requires (*old($1)).wf(),
    ensures told(*old($1), *final($1), q.is_ok(), {e}),
---
    proof { facts(*$1); }
"""
w("""impl<'sval> ValueBuf<'sval> {
//@fn sval_buffer | value::{impl<'sval> ValueBuf<'sval>}::new
//@sub Default::default\\(\\) => BufMut { inner: Vec::new() }
//@spec
    ensures r.wf(), r.tame(), r.g().evs =~= seq![], r.g().open =~= seq![], r.s().len() == 0, r.p().len() == 0, idle(r.g()), r.err is None,
//@end
//@fn sval_buffer | value::{impl<'sval> ValueBuf<'sval>}::is_complete
//@spec
    ensures r == (self.s().len() == 0 && self.p().len() > 0 && !self.is_in_text_or_binary),
        // as the users of a buffer see it
        self.wf() && self.tame() ==> (r ==> self.g().open.len() == 0 && idle(self.g())) && (self.g().open.len() == 0 && idle(self.g()) && self.g().evs.len() > 0 ==> r),
//@head
    proof { if self.tame() { opens_len(self.p(), self.s()); } }
//@end
//@fn sval_buffer | value::{impl<'sval> ValueBuf<'sval>}::clear
//@spec
    ensures final(self).wf(), final(self).tame(), final(self).g().evs =~= seq![], final(self).g().open =~= seq![], final(self).s().len() == 0, final(self).p().len() == 0, idle(final(self).g()), final(self).err is None,
//@end
//@fn sval_buffer | value::{impl<'sval> ValueBuf<'sval>}::fail
//@spec
    ensures r.is_err(), (*final(self)).parts == (*old(self)).parts, (*final(self)).stack == (*old(self)).stack,
        (*final(self)).is_in_text_or_binary == (*old(self)).is_in_text_or_binary, (*final(self)).err == Some(err),
//@end
//@fn sval_buffer | value::{impl<'sval> ValueBuf<'sval>}::into_err
//@spec
    ensures r == self.err,
//@end
//@fn sval_buffer | value::{impl<'sval> ValueBuf<'sval>}::try_catch
//@spec
    requires forall|b: &mut ValueBuf<'sval>| *b == *old(self) ==> #[trigger] call_requires(f, (b,)),
    ensures exists|b: &mut ValueBuf<'sval>, q: Result<(), Error>| {
        &&& *b == *old(self)
        &&& #[trigger] call_ensures(f, (b,), q)
        &&& r.is_ok() == q.is_ok()
        &&& final(self).parts == final(b).parts && final(self).stack == final(b).stack && final(self).is_in_text_or_binary == final(b).is_in_text_or_binary
        &&& r.is_err() ==> final(self).err is Some
    },
//@end
//@fn sval_buffer | value::{impl<'sval> ValueBuf<'sval>}::push_kind
//@spec
    requires old(self).wf(), clen(kind) is None,
    ensures r.is_ok(), final(self).wf(), final(self).p() == old(self).p().push(ValuePart { kind }), final(self).s() == old(self).s(),
        final(self).is_in_text_or_binary == old(self).is_in_text_or_binary,
        got(final(self).p(), final(self).s()) == got(old(self).p(), old(self).s()) + leaf(kind),
        opens(final(self).p(), final(self).s()) == opens(old(self).p(), old(self).s()),
//@head
    proof { push_leaf(self.p(), self.s(), ValuePart { kind }); }
//@end
//@fn sval_buffer | value::{impl<'sval> ValueBuf<'sval>}::push_begin
//@spec
    requires old(self).wf(), clen(kind) == Some(0usize),
    ensures r.is_ok(), final(self).wf(), final(self).s().len() == old(self).s().len() + 1,
        final(self).is_in_text_or_binary == old(self).is_in_text_or_binary,
        got(final(self).p(), final(self).s()) == got(old(self).p(), old(self).s()) + seq![begin1(kind)],
        opens(final(self).p(), final(self).s()) == opens(old(self).p(), old(self).s()).push(begin1(kind)),
//@head
    proof { push_open(self.p(), self.s(), ValuePart { kind }, self.parts.inner.len()); }
//@end
//@fn sval_buffer | value::{impl<'sval> ValueBuf<'sval>}::push_end
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), r.is_ok() == (old(self).s().len() > 0),
        final(self).is_in_text_or_binary == old(self).is_in_text_or_binary,
        r.is_ok() ==> {
            &&& final(self).s().len() + 1 == old(self).s().len()
            &&& opens(old(self).p(), old(self).s()).len() > 0
            &&& end_of(opens(old(self).p(), old(self).s()).last()) is Some
            &&& got(final(self).p(), final(self).s()) == got(old(self).p(), old(self).s()) + seq![end_of(opens(old(self).p(), old(self).s()).last()).unwrap()]
            &&& opens(final(self).p(), final(self).s()) == opens(old(self).p(), old(self).s()).drop_last()
        },
//@closure 0
-> (q: Error)

//@head
    proof {
        if self.s().len() > 0 {
            let i = self.s().last() as int;
            assert(self.parts.inner.len() == self.p().len());
            let n = (self.p().len() - i - 1) as usize;
            close_top(self.p(), self.s(), ValuePart { kind: with_len(self.p()[i].kind, n) }, n);
        }
    }
//@end
//@fn sval_buffer | value::{impl<'sval> ValueBuf<'sval>}::current_mut
//@spec
    ensures match r {
        Some(x) => 0 < old(self).p().len() && *x == old(self).p().last() && final(self).p() == old(self).p().update(old(self).p().len() - 1, *final(x)),
        None => 0 == old(self).p().len() && final(self).p() == old(self).p() },
        final(self).stack == old(self).stack, final(self).is_in_text_or_binary == old(self).is_in_text_or_binary,
//@end
}
""")

# --- the stream methods -----------------------------------------------------------
A = {"tag": "ot(tag)", "label": "ol(label)", "index": "oi(index)"}
methods = {}
for m, v, t in SCALARS:
    methods[m] = f"Ev::{v}(value)" if t else f"Ev::{v}"
methods["text_begin"] = "Ev::TextBegin(_arg0)"
methods["text_fragment"] = "Ev::TextFragment(fragment@, true)"
methods["text_fragment_computed"] = "Ev::TextFragment(fragment@, false)"
methods["text_end"] = "Ev::TextEnd"
methods["binary_begin"] = "Ev::BinaryBegin(_arg0)"
methods["binary_fragment"] = "Ev::BinaryFragment(fragment@, true)"
methods["binary_fragment_computed"] = "Ev::BinaryFragment(fragment@, false)"
methods["binary_end"] = "Ev::BinaryEnd"
methods["map_begin"] = "Ev::MapBegin(num_entries_hint)"
methods["seq_begin"] = "Ev::SeqBegin(num_entries_hint)"
for m, e in (("map_key_begin", "MapKeyBegin"), ("map_key_end", "MapKeyEnd"), ("map_value_begin", "MapValueBegin"), ("map_value_end", "MapValueEnd"),
             ("map_end", "MapEnd"), ("seq_value_begin", "SeqValueBegin"), ("seq_value_end", "SeqValueEnd"), ("seq_end", "SeqEnd")):
    methods[m] = f"Ev::{e}"
for m, e in (("enum", "Enum"), ("tagged", "Tagged")):
    methods[m + "_begin"] = f"Ev::{e}Begin(ot(tag), ol(label), oi(index))"
    methods[m + "_end"] = f"Ev::{e}End(ot(_arg0), ol(_arg1), oi(_arg2))"
methods["tag"] = "Ev::Tag(ot(tag), ol(label), oi(index))"
methods["tag_hint"] = "Ev::TagHint(*tag)"
for m, e, a, a2 in (("record", "Record", "ot(tag), label@", "ot(_arg0), _arg1@"), ("tuple", "Tuple", "ot(tag), index@", "ot(_arg0), _arg1@"),
                    ("record_tuple", "RecordTuple", "ot(tag), label@, index@", "ot(_arg0), _arg1@, _arg2@")):
    methods[m + "_begin"] = f"Ev::{e}Begin(ot(tag), ol(label), oi(index), num_entries)"
    methods[m + "_end"] = f"Ev::{e}End(ot(_arg0), ol(_arg1), oi(_arg2))"
    methods[m + "_value_begin"] = f"Ev::{e}ValueBegin({a})"
    methods[m + "_value_end"] = f"Ev::{e}ValueEnd({a2})"

w(r"""// The arguments of an end are not used by the buffer: a stream that ends what it began says the same again.
//@impl sval_buffer | """ + ST + r"""
//@header impl<'sval> ValueBuf<'sval>
//@sub \btag\.cloned\(\) => cloned_tag(tag)
//@sub \bindex\.cloned\(\) => cloned_index(index)
//@sub label\.map\(\|label\|\s*\{\s*label\.try_to_owned\(\)\.map_err\(\|_\|\s*Error::no_alloc\("owned label"\)\)\s*\}\)\.transpose\(\) => owned_label(label)
//@sub map_err\(\|_\|\s*Error => map_err(|_e: sval::Error| Error
//@sub \.map\(\|part\| &mut part\.kind\) => .map(|part: &mut ValuePart<'sval>| -> (k: &mut ValueKind<'sval>) ensures *k == old(part).kind, final(part).kind == *final(k) { &mut part.kind })""")
for m, e in methods.items():
    vis = "pub "
    w(f"//@spec {m}\n    requires (*old(self)).wf(),\n    ensures told(*old(self), *final(self), r.is_ok(), {e}), r.is_err() ==> final(self).err is Some,")
    w(f"//@head {m}\n    proof {{ facts(*self); }}")
    w(f"//@closure 1 {m}\n" + INNER.replace("{e}", e).rstrip())
w("//@end")

# --- streaming back -----------------------------------------------------------------
w(r"""
impl<'sval> ValueSlice<'sval> {
    #[verifier::external_body]
    pub fn of<'a>(parts: &'a [ValuePart<'sval>]) -> (r: &'a ValueSlice<'sval>) ensures r.0@ == parts@ { unimplemented!() }
    #[verifier::external_body]
    pub fn range<'a>(parts: &'a [ValuePart<'sval>], range: Range<usize>) -> (r: &'a [ValuePart<'sval>])
        requires range.start <= range.end <= parts@.len(),
        ensures r@ == parts@.subrange(range.start as int, range.end as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_range<'a>(parts: &'a [ValuePart<'sval>], range: &Range<usize>) -> (r: Option<&'a [ValuePart<'sval>]>)
        ensures r.is_some() == (range.start <= range.end <= parts@.len()) { unimplemented!() }
//@fn sval_buffer | value::{impl<'sval> ValueSlice<'sval>}::new
//@sub unsafe \{\s*mem::transmute::<[^(]*>\((.*?)\)\s*\} => Self::of(\1)
//@spec
    ensures r.0@ == parts@,
//@end
//@fn sval_buffer | value::{impl<'sval> ValueSlice<'sval>}::get
//@sub self\.0\.get\(i\) => get_part(&self.0, i)
//@spec
    ensures r.is_some() == (i < self.0@.len()), r.is_some() ==> *r.unwrap() == self.0@[i as int],
//@end
//@fn sval_buffer | value::{impl<'sval> ValueSlice<'sval>}::slice
//@sub self\.0\.get\(range\.clone\(\)\) => Self::get_range(&self.0, &range)
//@sub ::core::panicking::panic_fmt\(format_args!\((?s:.*?)\)\); => unreached();
//@sub unsafe \{\s*mem::transmute::<[^(]*>\(&self\.0\[range\]\)\s*\} => Self::of(Self::range(&self.0, range))
//@spec
    requires range.start <= range.end <= self.0@.len(),
    ensures r.0@ == self.0@.subrange(range.start as int, range.end as int),
//@end
}
pub fn unreached() -> (r: ()) requires false { }
pub fn get_part<'a, T>(s: &'a [T], i: usize) -> (r: Option<&'a T>)
    ensures r.is_some() == (i < s@.len()), r.is_some() ==> *r.unwrap() == s@[i as int],
{ if i < s.len() { Some(&s[i]) } else { None } }

// A part of the slice, streamed by the same function: its contract.
#[verifier::external_body]
pub fn stream_rest<'sval, S: sval::Stream<'sval> + ?Sized>(stream: &mut S, body: &ValueSlice<'sval>) -> (r: sval::Result)
    requires !(*old(stream)).st().broken, whole(body.0@),
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(out(body.0@), (*old(stream)).st().lends)),
{ unimplemented!() }
//@fn sval_buffer | value::{impl<'sval> sval_ref::ValueRef<'sval> for ValueSlice<'sval>}::stream_ref::{body}::stream_value
//@spec
    requires
        *old(i) + 1 + len <= value.0@.len(),
        forall|s: &mut S, b: &ValueSlice<'sval>| s.st() == (*old(stream)).st() && b.0@ == value.0@.subrange(*old(i) + 1, *old(i) + 1 + len) ==> #[trigger] call_requires(f, (s, b)),
    ensures
        r.is_ok() ==> *final(i) == *old(i) + len,
        exists|s: &mut S, b: &ValueSlice<'sval>, q: sval::Result| {
            &&& s.st() == (*old(stream)).st()
            &&& b.0@ == value.0@.subrange(*old(i) + 1, *old(i) + 1 + len)
            &&& #[trigger] call_ensures(f, (s, b), q)
            &&& final(s).st() == (*final(stream)).st()
            &&& q.is_ok() == r.is_ok()
        },
//@head
    proof { assert(value.0.len() <= usize::MAX); }
//@end
//@fn sval_buffer | value::{impl<'sval> sval_ref::ValueRef<'sval> for ValueSlice<'sval>}::stream_ref
//@as slice_stream_ref
//@hoisted
//@sub (fn \w+)<'a, S: => \1<'a, 'sval, S:
//@sub sval_ref::stream_ref\(stream, v\) => v.stream_ref(stream)
//@sub sval_ref::stream_ref\(stream, body\) => stream_rest(stream, body)
//@closure 2
&mut S; &ValueSlice<'sval> -> (q: sval::Result)
    requires !(*old($1)).st().broken, whole($2.0@),
    ensures sent((*old($1)).st(), (*final($1)).st(), q, lend(seq![begin1(part.kind)] + out($2.0@) + seq![end1(part.kind)], (*old($1)).st().lends)),
---
    proof { block((*$1).st().log, part.kind, out($2.0@), (*$1).st().lends); }
//@loop 0
    invariant
        i <= self.0@.len(),
        !(*stream).st().broken,
        (*stream).st().lends == (*old(stream)).st().lends,
        whole(self.0@.skip(i as int)),
        out(self.0@.skip(self.0@.len() as int)) == Seq::<Ev>::empty(),
        (*stream).st().log + lend(out(self.0@.skip(i as int)), (*old(stream)).st().lends) == (*old(stream)).st().log + lend(out(self.0@), (*old(stream)).st().lends),
    ensures i == self.0@.len(),
    decreases self.0@.len() - i,
//@outline 0
slice_part <'a, 'sval, S: sval::Stream<'sval> + ?Sized> | self: &'a ValueSlice<'sval>, stream: &mut S, part: &ValuePart<'sval> | i: usize | self, stream, part
""")
for group in (["Map", "MapKey", "MapValue"], ["Seq", "SeqValue", "Tuple"], ["Enum", "Tagged", "TupleValue"], ["Record", "RecordValue"], ["RecordTuple", "RecordTupleValue"]):
    w("case: " + " || ".join(f"part.kind is {v}" for v in group))
w("case: clen(part.kind) is None")
w(r"""    requires i < self.0@.len(), *part == self.0@[i as int], !(*old(stream)).st().broken, whole(self.0@.skip(i as int)),
    ensures r.is_err() ==> (*final(stream)).st().broken, (*final(stream)).st().lends == (*old(stream)).st().lends,
        r.is_ok() ==> {
            &&& i < r->Ok_0 <= self.0@.len()
            &&& !(*final(stream)).st().broken
            &&& (*final(stream)).st().lends == (*old(stream)).st().lends
            &&& whole(self.0@.skip(r->Ok_0 as int))
            &&& (*final(stream)).st().log + lend(out(self.0@.skip(r->Ok_0 as int)), (*old(stream)).st().lends) == (*old(stream)).st().log + lend(out(self.0@.skip(i as int)), (*old(stream)).st().lends)
        },
---
    hide(out); hide(whole); hide(lend);
    proof { slice_step(self.0@, i as int); leaf_step((*stream).st().log, self.0@, i as int, (*stream).st().lends); assert(self.0.len() <= usize::MAX); }
//@free ValueSlice<'sval>
//@spec
    requires !(*old(stream)).st().broken, whole(self.0@),
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(out(self.0@), (*old(stream)).st().lends)),
//@head
    broadcast use append_empty;
    proof { assert(self.0@.skip(0) =~= self.0@); slice_step(self.0@, self.0@.len() as int); assert(lend(Seq::<Ev>::empty(), (*stream).st().lends) =~= Seq::<Ev>::empty()); }
//@end
// begin, body, end, seen from the log
pub proof fn block(o: Seq<Ev>, k: ValueKind, body: Seq<Ev>, l: bool)
    requires clen(k) is Some,
    ensures ((o + seq![begin1(k)]) + lend(body, l)) + seq![end1(k)] == o + lend(seq![begin1(k)] + body + seq![end1(k)], l),
{
    assert(lend1(begin1(k), l) == begin1(k) && lend1(end1(k), l) == end1(k));
    assert(((o + seq![begin1(k)]) + lend(body, l)) + seq![end1(k)] =~= o + lend(seq![begin1(k)] + body + seq![end1(k)], l));
}
// one part, seen from the log
pub proof fn leaf_step(o: Seq<Ev>, p: Seq<ValuePart>, i: int, l: bool)
    requires 0 <= i <= p.len(), whole(p.skip(i)),
    ensures i < p.len() ==> match clen(p[i].kind) {
            Some(n) => (o + lend(seq![begin1(p[i].kind)] + out(p.subrange(i + 1, i + 1 + n)) + seq![end1(p[i].kind)], l)) + lend(out(p.skip(i + 1 + n)), l) == o + lend(out(p.skip(i)), l),
            None => (o + lend(leaf(p[i].kind), l)) + lend(out(p.skip(i + 1)), l) == o + lend(out(p.skip(i)), l)
                && (match p[i].kind { ValueKind::Text(_) | ValueKind::Binary(_) => true, _ => lend(leaf(p[i].kind), l) == leaf(p[i].kind) }),
        },
{
    if i < p.len() {
        slice_step(p, i);
        match clen(p[i].kind) {
            Some(n) => {
                let a = seq![begin1(p[i].kind)] + out(p.subrange(i + 1, i + 1 + n)) + seq![end1(p[i].kind)];
                lend_append(a, out(p.skip(i + 1 + n)), l);
                assert((o + lend(a, l)) + lend(out(p.skip(i + 1 + n)), l) =~= o + lend(a + out(p.skip(i + 1 + n)), l));
            }
            None => {
                lend_append(leaf(p[i].kind), out(p.skip(i + 1)), l);
                assert((o + lend(leaf(p[i].kind), l)) + lend(out(p.skip(i + 1)), l) =~= o + lend(out(p.skip(i)), l));
                match p[i].kind { ValueKind::Text(_) | ValueKind::Binary(_) => {}, _ => { assert(lend(leaf(p[i].kind), l) =~= leaf(p[i].kind)); } }
            }
        }
    }
}
pub proof fn slice_step(p: Seq<ValuePart>, i: int)
    requires 0 <= i <= p.len(), i == p.len() || whole(p.skip(i)),
    ensures
        i < p.len() ==> match clen(p[i].kind) {
            Some(n) => i + 1 + n <= p.len() && whole(p.subrange(i + 1, i + 1 + n)) && whole(p.skip(i + 1 + n))
                && out(p.skip(i)) == seq![begin1(p[i].kind)] + out(p.subrange(i + 1, i + 1 + n)) + seq![end1(p[i].kind)] + out(p.skip(i + 1 + n)),
            None => whole(p.skip(i + 1)) && out(p.skip(i)) == leaf(p[i].kind) + out(p.skip(i + 1)),
        },
        i == p.len() ==> out(p.skip(i)) == Seq::<Ev>::empty(),
{
    let q = p.skip(i);
    if i < p.len() {
        assert(q[0] == p[i]);
        match clen(p[i].kind) {
            Some(n) => { assert(q.subrange(1, 1 + n) =~= p.subrange(i + 1, i + 1 + n)); assert(q.skip(1 + n) =~= p.skip(i + 1 + n)); }
            None => { assert(q.skip(1) =~= p.skip(i + 1)); }
        }
    }
}
""")
w(r"""
impl<'a> ValueSlice<'a> {
//@fn sval_buffer | value::{impl<'a> sval::Value for ValueSlice<'a>}::stream
//@sub self\.stream_ref\(stream\) => slice_stream_ref(self, stream)
//@spec
    requires !(*old(stream)).st().broken, whole(self.0@),
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(out(self.0@), (*old(stream)).st().lends)),
//@end
}
// What a buffer streams: its content, or null if it is empty.
pub open spec fn content(p: Seq<ValuePart>) -> Seq<Ev> { if p.len() == 0 { seq![Ev::Null] } else { out(p) } }
//@fn sval_buffer | value::stream_ref
//@sub ValueSlice::new\(parts\)\.stream_ref\(stream\) => slice_stream_ref(ValueSlice::new(parts), stream)
//@spec
    requires !(*old(stream)).st().broken, whole(parts@),
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(content(parts@), (*old(stream)).st().lends)),
//@head
    proof { assert(lend(seq![Ev::Null], (*stream).st().lends) =~= seq![Ev::Null]); }
//@end
impl<'sval> ValueBuf<'sval> {
//@fn sval_buffer | value::{impl<'sval> sval_ref::ValueRef<'sval> for ValueBuf<'sval>}::stream_ref
//@sub &self\.parts => self.parts.deref()
//@spec
    requires !(*old(stream)).st().broken, self.wf(),
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(content(self.p()), (*old(stream)).st().lends)),
        self.s().len() == 0 && !self.is_in_text_or_binary && self.p().len() > 0 ==> lend(content(self.p()), false) == self.g().evs,
//@head
    proof { opened_whole(self.p(), self.s()); }
//@end
}
impl<'a> ValueBuf<'a> {
//@fn sval_buffer | value::{impl<'a> sval::Value for ValueBuf<'a>}::stream
//@spec
    requires !(*old(stream)).st().broken, self.wf(),
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(content(self.p()), (*old(stream)).st().lends)),
//@end
}
impl<'sval> Value<'sval> {
    pub open spec fn p(&self) -> Seq<ValuePart<'sval>> { self.parts.inner@ }
//@fn sval_buffer | value::{impl<'sval> sval_ref::ValueRef<'sval> for Value<'sval>}::stream_ref
//@sub &self\.parts => self.parts.deref()
//@spec
    requires !(*old(stream)).st().broken, whole(self.p()),
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(content(self.p()), (*old(stream)).st().lends)),
//@end
}
impl<'a> Value<'a> {
//@fn sval_buffer | value::{impl<'a> sval::Value for Value<'a>}::stream
//@spec
    requires !(*old(stream)).st().broken, whole(self.p()),
    ensures sent((*old(stream)).st(), (*final(stream)).st(), r, lend(content(self.p()), (*old(stream)).st().lends)),
//@end
}

// A value streamed into a buffer: the calls it makes are those of its events, in order, until
// one fails, and each of them obeys its contract. `fails` is a value failing of its own accord.
pub uninterp spec fn fails<V: sval::Value + ?Sized>(v: &V) -> bool;
pub open spec fn fresh(b: ValueBuf) -> bool { b.wf() && b.tame() && b.g() == start() && b.s().len() == 0 && b.p().len() == 0 }
pub open spec fn start() -> Got { Got { evs: seq![], open: seq![], text: None, binary: None } }
pub open spec fn driven(a: ValueBuf, z: ValueBuf, ok: bool, e: Seq<Ev>, fails: bool) -> bool {
    &&& z.wf()
    &&& a.tame() && all_fit(a.g(), e) ==> ok == !fails && (ok ==> z.tame() && z.g() == run(a.g(), e))
}
pub proof fn driven_is_told(b: Seq<ValueBuf>, e: Seq<Ev>)
    requires b.len() == e.len() + 1, b[0].wf(), forall|i: int| 0 <= i < e.len() ==> #[trigger] told(b[i], b[i + 1], true, e[i]),
    ensures driven(b[0], b.last(), true, e, false),
    decreases e.len(),
{
    if e.len() > 0 {
        let n = e.len() - 1;
        assert(told(b[n], b[n + 1], true, e[n]));
        assert forall|i: int| 0 <= i < n implies #[trigger] told(b.drop_last()[i], b.drop_last()[i + 1], true, e.drop_last()[i]) by { assert(told(b[i], b[i + 1], true, e[i])); }
        driven_is_told(b.drop_last(), e.drop_last());
    }
}
#[verifier::external_body]
pub fn drive<'sval, V: sval::Value + ?Sized>(v: &'sval V, buf: &mut ValueBuf<'sval>) -> (r: sval::Result)
    requires (*old(buf)).wf(),
    ensures driven(*old(buf), *final(buf), r.is_ok(), v.evs(), fails(v)),
{ unimplemented!() }
#[verifier::external_body]
pub fn drive_computed<'sval, V: sval::Value>(buf: &mut ValueBuf<'sval>, v: V) -> (r: sval::Result)
    requires (*old(buf)).wf(),
    ensures driven(*old(buf), *final(buf), r.is_ok(), lend(v.evs(), false), fails(&v)),
{ unimplemented!() }
pub open spec fn collected(b: ValueBuf, e: Seq<Ev>) -> bool { b.wf() && b.tame() && b.g() == run(start(), e) }
pub open spec fn captured(v: Value, e: Seq<Ev>) -> bool {
    run(start(), e).open.len() == 0 && idle(run(start(), e)) ==> whole(v.p()) && lend(out(v.p()), false) == run(start(), e).evs
}
pub proof fn opens_len(p: Seq<ValuePart>, st: Seq<usize>)
    ensures opens(p, st).len() == st.len(),
    decreases st.len(),
{ if st.len() > 0 { opens_len(p.take(st.last() as int), st.drop_last()); } }
pub proof fn complete(b: ValueBuf)
    requires b.wf(), b.tame(), idle(b.g()), b.g().open.len() == 0,
    ensures b.s().len() == 0, !b.is_in_text_or_binary, b.g().evs == lend(out(b.p()), false), whole(b.p()),
{
    opened_whole(b.p(), b.s());
    opens_len(b.p(), b.s());
    opens_len(b.p().drop_last(), b.s());
}

// A content that borrows nothing, for which the lifetime can be dropped.
pub open spec fn owned(k: ValueKind) -> bool { match k { ValueKind::Text(t) => !t.lent(), ValueKind::Binary(t) => !t.lent(), _ => true } }
pub open spec fn all_owned(p: Seq<ValuePart>) -> bool { forall|i: int| 0 <= i < p.len() ==> owned(#[trigger] p[i].kind) }
// The same part, whoever owns its content.
pub open spec fn same1(a: ValueKind, b: ValueKind) -> bool {
    match (a, b) {
        (ValueKind::Text(x), ValueKind::Text(y)) => x.content() == y.content(),
        (ValueKind::Binary(x), ValueKind::Binary(y)) => x.content() == y.content(),
        _ => a == b,
    }
}
pub open spec fn same(p: Seq<ValuePart>, q: Seq<ValuePart>) -> bool { p.len() == q.len() && forall|i: int| 0 <= i < p.len() ==> same1(#[trigger] p[i].kind, q[i].kind) }
pub proof fn same_out(p: Seq<ValuePart>, q: Seq<ValuePart>)
    requires same(p, q),
    ensures whole(p) == whole(q), lend(out(p), false) == lend(out(q), false),
    decreases p.len(),
{
    if p.len() > 0 {
        assert(same1(p[0].kind, q[0].kind));
        assert(lend(leaf(p[0].kind), false) == lend(leaf(q[0].kind), false)) by {
            match (p[0].kind, q[0].kind) {
                (ValueKind::Text(x), ValueKind::Text(y)) => { assert(lend(text_of(x), false) =~= lend(text_of(y), false)); }
                (ValueKind::Binary(x), ValueKind::Binary(y)) => { assert(lend(binary_of(x), false) =~= lend(binary_of(y), false)); }
                _ => {}
            }
        }
        match clen(p[0].kind) {
            Some(n) => if 1 + n <= p.len() {
                same_out(p.subrange(1, 1 + n), q.subrange(1, 1 + n));
                same_out(p.skip(1 + n), q.skip(1 + n));
                let (b, e) = (begin1(p[0].kind), end1(p[0].kind));
                let (x, y) = (out(p.subrange(1, 1 + n)), out(q.subrange(1, 1 + n)));
                lend_append(seq![b] + x + seq![e], out(p.skip(1 + n)), false);
                lend_append(seq![b] + y + seq![e], out(q.skip(1 + n)), false);
                lend_append(seq![b] + x, seq![e], false); lend_append(seq![b], x, false);
                lend_append(seq![b] + y, seq![e], false); lend_append(seq![b], y, false);
            },
            None => {
                same_out(p.skip(1), q.skip(1));
                lend_append(leaf(p[0].kind), out(p.skip(1)), false);
                lend_append(leaf(q[0].kind), out(q.skip(1)), false);
            }
        }
    }
}
pub proof fn same_got(p: Seq<ValuePart>, q: Seq<ValuePart>, st: Seq<usize>)
    requires same(p, q), opened(p, st),
    ensures opened(q, st), lend(got(p, st), false) == lend(got(q, st), false), opens(p, st) == opens(q, st),
    decreases st.len(),
{
    if st.len() == 0 { same_out(p, q); } else {
        let s = st.last() as int;
        same_out(p.skip(s + 1), q.skip(s + 1));
        assert(same1(p[s].kind, q[s].kind));
        same_got(p.take(s), q.take(s), st.drop_last());
        let (g, h) = (got(p.take(s), st.drop_last()), got(q.take(s), st.drop_last()));
        lend_append(g + seq![begin1(p[s].kind)], out(p.skip(s + 1)), false); lend_append(g, seq![begin1(p[s].kind)], false);
        lend_append(h + seq![begin1(q[s].kind)], out(q.skip(s + 1)), false); lend_append(h, seq![begin1(q[s].kind)], false);
    }
}
pub proof fn same_buf(a: ValueBuf, b: ValueBuf)
    requires a.wf(), same(a.p(), b.p()), a.s() == b.s(), a.is_in_text_or_binary == b.is_in_text_or_binary,
    ensures b.wf(), a.tame() ==> b.tame() && b.g() == a.g(),
{
    same_got(a.p(), b.p(), a.s());
    if a.tame() && a.is_in_text_or_binary {
        assert(same1(a.p().last().kind, b.p().last().kind));
        same_got(a.p().drop_last(), b.p().drop_last(), a.s());
    }
}
pub fn assert_static<T>(v: &mut T) ensures *final(v) == *old(v) { }
#[verifier::external_body]
pub fn as_static_part<'a, 's>(c: &'a mut ValuePart<'s>) -> (r: &'a mut ValuePart<'static>)
    requires owned((*old(c)).kind),
    ensures *r == *old(c), *final(c) == *final(r),
{ unimplemented!() }
#[verifier::external_body]
pub fn as_static_bufmut<'s>(c: BufMut<ValuePart<'s>, 1>) -> (r: BufMut<ValuePart<'static>, 1>)
    requires all_owned(c.inner@),
    ensures r.inner@ == c.inner@,
{ unimplemented!() }
#[verifier::external_body]
pub fn as_static_parts<'s>(c: Buf<ValuePart<'s>, 1>) -> (r: Buf<ValuePart<'static>, 1>)
    requires all_owned(c.inner@),
    ensures r.inner@ == c.inner@,
{ unimplemented!() }
impl<'sval> ValuePart<'sval> {
//@fn sval_buffer | value::{impl<'sval> ValuePart<'sval>}::into_owned_in_place
//@sub crate::assert_static => assert_static
//@sub (?s)unsafe \{\s*mem::transmute.*\(self\)\s*\} => as_static_part(self)
//@spec
    ensures same1((*old(self)).kind, (*r).kind), owned((*r).kind), *final(self) == *final(r),
//@end
}
// `#[derive(Clone)]`: a copy that stands for the same content
#[verifier::external_body]
pub fn clone_parts<'s>(b: &BufMut<ValuePart<'s>, 1>) -> (r: BufMut<ValuePart<'s>, 1>) ensures same(b.inner@, r.inner@) { unimplemented!() }
impl<T, const N: usize> Buf<T, N> {
    #[verifier::external_body]
    pub fn get_mut(&mut self, i: usize) -> (r: Option<&mut T>)
        ensures match r {
            Some(x) => i < old(self).inner@.len() && *x == old(self).inner@[i as int] && final(self).inner@ == old(self).inner@.update(i as int, *final(x)),
            None => i >= old(self).inner@.len() && final(self).inner@ == old(self).inner@ }
    { self.inner.get_mut(i) }
    pub fn len(&self) -> (r: usize) ensures r == self.inner@.len() { self.inner.len() }
}
impl<'sval> ValueBuf<'sval> {
//@fn sval_buffer | value::{impl<'sval> ValueBuf<'sval>}::to_value
//@sub self\.parts\.clone\(\)\.into\(\) => Buf::from(clone_parts(&self.parts))
//@spec
    ensures same(self.p(), r.p()), self.wf() ==> whole(r.p()) && lend(out(r.p()), false) == lend(out(self.p()), false),
//@head
    proof {
        assert forall|q: Seq<ValuePart>| self.wf() && #[trigger] same(self.p(), q) implies whole(q) && lend(out(q), false) == lend(out(self.p()), false) by {
            opened_whole(self.p(), self.s()); same_out(self.p(), q);
        }
    }
//@end
//@fn sval_buffer | value::{impl<'sval> ValueBuf<'sval>}::into_value
//@sub self\.parts\.into\(\) => Buf::from(self.parts)
//@spec
    ensures r.p() == self.p(), self.wf() ==> whole(r.p()),
        forall|e: Seq<Ev>| #[trigger] collected(self, e) ==> captured(r, e),
//@head
    proof {
        if self.wf() { opened_whole(self.p(), self.s()); }
        if self.wf() && self.tame() && idle(self.g()) && self.g().open.len() == 0 { complete(self); }
    }
//@end
//@fn sval_buffer | value::{impl<'sval> ValueBuf<'sval>}::into_owned
//@sub crate::assert_static => assert_static
//@sub for part in parts\.iter_mut\(\) \{ => let mut at__: usize = 0; while at__ < parts.len() invariant parts.inner@.len() == self.p().len(), at__ <= parts.inner@.len(), forall|j: int| 0 <= j < at__ ==> owned(#[trigger] parts.inner@[j].kind), forall|j: int| 0 <= j < parts.inner@.len() ==> same1(#[trigger] self.p()[j].kind, parts.inner@[j].kind), decreases parts.inner@.len() - at__ { let part = parts.get_mut(at__).unwrap(); at__ = at__ + 1;
//@sub (?s)unsafe \{\s*mem::transmute.*?\(parts\)\s*\} => as_static_bufmut(parts)
//@spec
    ensures r.is_ok(), self.wf() ==> (r->Ok_0).wf(), self.wf() && self.tame() ==> (r->Ok_0).tame() && (r->Ok_0).g() == self.g(),
        same(self.p(), (r->Ok_0).p()), all_owned((r->Ok_0).p()), (r->Ok_0).s() == self.s(), (r->Ok_0).err == self.err,
        (r->Ok_0).is_in_text_or_binary == self.is_in_text_or_binary,
//@head
    proof { assert forall|b: ValueBuf| #![trigger b.g()] self.wf() && same(self.p(), b.p()) && b.s() == self.s() && b.is_in_text_or_binary == self.is_in_text_or_binary
        implies b.wf() && (self.tame() ==> b.tame() && b.g() == self.g()) by { same_buf(self, b); } }
//@end
//@fn sval_buffer | value::{impl<'sval> ValueBuf<'sval>}::collect
//@sub v\.stream\(&mut buf\) => drive(v, &mut buf)
//@spec
    ensures all_fit(start(), v.evs()) ==> r.is_ok() == !fails(v) && (r.is_ok() ==> collected(r->Ok_0, v.evs())), r.is_ok() ==> (r->Ok_0).wf(),
//@end
//@fn sval_buffer | value::{impl ValueBuf<'static>}::collect_owned
//@sub sval::stream_computed\(&mut buf, v\) => drive_computed(&mut buf, v)
//@spec
    ensures all_fit(start(), lend(v.evs(), false)) ==> r.is_ok() == !fails(&v) && (r.is_ok() ==> collected(r->Ok_0, lend(v.evs(), false))), r.is_ok() ==> (r->Ok_0).wf(),
//@end
}
impl<'sval> Value<'sval> {
//@fn sval_buffer | value::{impl<'sval> Value<'sval>}::collect
//@closure 1
ValueBuf<'sval> -> (q: Value<'sval>)
    ensures q.p() == $1.p(), $1.wf() ==> whole(q.p()), forall|e: Seq<Ev>| #[trigger] collected($1, e) ==> captured(q, e),
//@spec
    ensures all_fit(start(), v.evs()) ==> r.is_ok() == !fails(v) && (r.is_ok() ==> captured(r->Ok_0, v.evs())), r.is_ok() ==> whole((r->Ok_0).p()),
//@end
//@fn sval_buffer | value::{impl Value<'static>}::collect_owned
//@closure 1
ValueBuf<'sval> -> (q: Value<'sval>)
    ensures q.p() == $1.p(), $1.wf() ==> whole(q.p()), forall|e: Seq<Ev>| #[trigger] collected($1, e) ==> captured(q, e),
//@spec
    ensures all_fit(start(), lend(v.evs(), false)) ==> r.is_ok() == !fails(&v) && (r.is_ok() ==> captured(r->Ok_0, lend(v.evs(), false))), r.is_ok() ==> whole((r->Ok_0).p()),
//@end
//@fn sval_buffer | value::{impl<'sval> Value<'sval>}::into_owned
//@sub crate::assert_static => assert_static
//@sub for part in parts\.iter_mut\(\) \{ => let mut at__: usize = 0; while at__ < parts.len() invariant parts.inner@.len() == self.p().len(), at__ <= parts.inner@.len(), forall|j: int| 0 <= j < at__ ==> owned(#[trigger] parts.inner@[j].kind), forall|j: int| 0 <= j < parts.inner@.len() ==> same1(#[trigger] self.p()[j].kind, parts.inner@[j].kind), decreases parts.inner@.len() - at__ { let part = parts.get_mut(at__).unwrap(); at__ = at__ + 1;
//@sub (?s)unsafe \{\s*mem::transmute.*?\(parts\)\s*\} => as_static_parts(parts)
//@spec
    ensures r.is_ok(), same(self.p(), (r->Ok_0).p()), all_owned((r->Ok_0).p()), whole(self.p()) == whole((r->Ok_0).p()), lend(out((r->Ok_0).p()), false) == lend(out(self.p()), false),
//@head
    proof { assert forall|q: Seq<ValuePart>| #[trigger] same(self.p(), q) implies whole(self.p()) == whole(q) && lend(out(q), false) == lend(out(self.p()), false) by { same_out(self.p(), q); } }
//@end
}
//@fn sval_buffer | value::stream_to_value
//@spec
    ensures all_fit(start(), v.evs()) ==> r.is_ok() == !fails(v) && (r.is_ok() ==> collected(r->Ok_0, v.evs())), r.is_ok() ==> (r->Ok_0).wf(),
//@end
//@fn sval_buffer | value::stream_to_value_owned
//@spec
    ensures all_fit(start(), lend(v.evs(), false)) ==> r.is_ok() == !fails(&v) && (r.is_ok() ==> collected(r->Ok_0, lend(v.evs(), false))), r.is_ok() ==> (r->Ok_0).wf(),
//@end
""")
w("""pub proof fn facts(b: ValueBuf)
    ensures
        forall|k: ValuePart| (#[trigger] b.p().push(k)).drop_last() == b.p(),
        b.p().len() > 0 && clen(b.p().last().kind) is None ==>
            forall|k: ValuePart| clen(k.kind) is None && b.wf() ==> opened(#[trigger] b.p().update(b.p().len() - 1, k), b.s()),
        forall|x: Seq<Ev>, e: Ev| #[trigger] lend(x + seq![e], false) == lend(x, false).push(lend1(e, false)),
        b.p().len() > 0 && b.tame() && b.is_in_text_or_binary ==>
            got(b.p(), b.s()) == got(b.p().drop_last(), b.s()) + leaf(b.p().last().kind) && opens(b.p(), b.s()) == opens(b.p().drop_last(), b.s()),
        forall|k: ValuePart| b.p().len() > 0 ==> (#[trigger] b.p().update(b.p().len() - 1, k)).drop_last() == b.p().drop_last(),
        forall|k: ValuePart| b.p().len() > 0 && k == b.p().last() ==> (#[trigger] b.p().update(b.p().len() - 1, k)) == b.p(),
        b.p().len() > 0 && b.tame() && b.is_in_text_or_binary ==> lend(got(b.p(), b.s()), false) == lend(got(b.p().drop_last(), b.s()), false) + match b.p().last().kind {
            ValueKind::Text(t) => computed_text_evs(t.content()),
            ValueKind::Binary(t) => lend(binary_evs(t.content()), false),
            _ => seq![],
        },
{
    assert forall|k: ValuePart| (#[trigger] b.p().push(k)).drop_last() == b.p() by { assert(b.p().push(k).drop_last() =~= b.p()); }
    if b.p().len() > 0 && clen(b.p().last().kind) is None {
        assert forall|k: ValuePart| clen(k.kind) is None && b.wf() implies opened(#[trigger] b.p().update(b.p().len() - 1, k), b.s()) by {
            opened_set(b.p(), b.s(), b.p().len() - 1, k);
        }
    }
    assert forall|x: Seq<Ev>, e: Ev| #[trigger] lend(x + seq![e], false) == lend(x, false).push(lend1(e, false)) by {
        assert(lend(x + seq![e], false) =~= lend(x, false).push(lend1(e, false)));
    }
    if b.p().len() > 0 && b.tame() && b.is_in_text_or_binary {
        push_leaf(b.p().drop_last(), b.s(), b.p().last());
        assert(b.p().drop_last().push(b.p().last()) =~= b.p());
        match b.p().last().kind {
            ValueKind::Text(t) => { assert(lend(text_of(t), false) =~= computed_text_evs(t.content())); }
            ValueKind::Binary(t) => { assert(lend(binary_of(t), false) =~= lend(binary_evs(t.content()), false)); }
            _ => {}
        }
        lend_append(got(b.p().drop_last(), b.s()), leaf(b.p().last().kind), false);
    }
    assert forall|k: ValuePart| b.p().len() > 0 && k == b.p().last() implies (#[trigger] b.p().update(b.p().len() - 1, k)) == b.p() by {
        assert(b.p().update(b.p().len() - 1, k) =~= b.p());
    }
    assert forall|k: ValuePart| b.p().len() > 0 implies (#[trigger] b.p().update(b.p().len() - 1, k)).drop_last() == b.p().drop_last() by {
        assert(b.p().update(b.p().len() - 1, k).drop_last() =~= b.p().drop_last());
    }
}
}
}
fn main() {}""")
open(os.path.join(ROOT, "specs", "buffer.rs"), "w").write("\n".join(out) + "\n")
