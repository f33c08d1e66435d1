"""Writes specs/flatten.rs (C14)."""
import os
import re
SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")
stream = open(os.path.join(SPECS, "stream.rs")).read()

trait = stream[stream.index("pub trait Stream<'sval> {"):stream.index("// `v.stream(stream)` for a value only known")]
trait = trait.replace("pub trait Stream<'sval> {\n    spec fn st(&self) -> St;", "pub trait Stream<'sval> {\n    spec fn at(&self) -> V;")
trait = trait.replace("!(*old(self)).st().broken", "!(*old(self)).at().broken")
trait = re.sub(r", \(\*old\(self\)\)\.st\(\)\.lends\)\]", ", true)]", trait)
trait = re.sub(r"sent\(\(\*old\(self\)\)\.st\(\), \(\*final\(self\)\)\.st\(\), r, seq!\[(.*)\]\);", r"step((*old(self)).at(), (*final(self)).at(), r, \1);", trait)
trait = re.sub(r"sent\(\(\*old\(self\)\)\.st\(\), \(\*final\(self\)\)\.st\(\), r, lend\(v\.evs\(\), [^;]*\)\);", r"steps((*old(self)).at(), (*final(self)).at(), r, v.evs());", trait)
assert "sent(" not in trait and "lends" not in trait and "st()" not in trait
EVENTS = dict(re.findall(r"fn (\w+)\(&mut self[^\n]*\n\s*requires [^\n]*\n\s*ensures step\(\(\*old\(self\)\)\.at\(\), \(\*final\(self\)\)\.at\(\), r, (.*)\);", trait))
SIGS = dict(re.findall(r"fn (\w+)(\([^\n]*\)) -> \(r: Result\)\n", trait))
assert len(EVENTS) == 50, len(EVENTS)

INTS = ["U8", "U16", "U32", "U64", "U128", "I8", "I16", "I32", "I64", "I128"]
DEFAULTS = re.findall(r"//@fn sval \| stream::default_stream::(\w+)", open(os.path.join(SPECS, "default_stream.rs")).read())

o = [r'''// C14: flattening puts every child value on the parent once, under its right key
// (generated by lib/mkflatten.py).
#![verifier::exec_allows_no_decreases_clause]
use vstd::prelude::*;
verus! {
//@include data.rs
//@include events.rs
pub mod sval { pub use super::*; }

// What is known of a stream: a parent logs every event; a label buffer keeps the text of
// the scalars it is told and never fails; `Empty` ignores everything.
pub ghost enum VK { Parent, Label, Nothing }
pub ghost struct V { pub kind: VK, pub log: Seq<Ev>, pub text: Seq<char>, pub broken: bool, pub seen: bool }

// The text of numbers (itoa, ryu and Display of an index are trusted to print it).
pub uninterp spec fn dec(n: int) -> Seq<char>;
pub uninterp spec fn ftxt(v: f64) -> Seq<char>;
pub uninterp spec fn widened(v: f32) -> f64;
#[verifier::external_body]
pub fn widen(v: f32) -> (r: f64) ensures r == widened(v) { v as f64 }
pub open spec fn decs(b: Seq<u8>) -> Seq<char>
    decreases b.len(),
{ if b.len() == 0 { Seq::empty() } else { decs(b.drop_last()) + dec(b.last() as int) } }

// What an event adds to a label.
pub open spec fn txt(e: Ev) -> Seq<char> {
    match e {
        Ev::Null => "null"@,
        Ev::Bool(b) => if b { "true"@ } else { "false"@ },
        Ev::TextFragment(s, _) => s,
        Ev::BinaryFragment(s, _) => decs(s),
''' + "".join(f"        Ev::{t}(v) => dec(v as int),\n" for t in INTS) + r'''        Ev::F32(v) => ftxt(widened(v)),
        Ev::F64(v) => ftxt(v),
        Ev::Tag(_, Some(l), _) => l.text,
        Ev::Tag(_, None, Some(i)) => dec(i.num),
        Ev::Tag(_, None, None) => "null"@,
        Ev::RecordValueBegin(_, l) => l.text,
        Ev::RecordTupleValueBegin(_, l, _) => l.text,
        _ => Seq::empty(),
    }
}
// Whether the last key seen still waits for its value.
pub open spec fn seen1(seen: bool, e: Ev) -> bool {
    match e { Ev::MapKeyEnd => true, Ev::MapValueBegin => false, _ => seen }
}
// How long a fragment is lent for is not part of this property.
pub open spec fn after(v: V, e: Ev) -> V {
    match v.kind {
        VK::Parent => V { log: v.log.push(lend1(e, false)), seen: seen1(v.seen, e), ..v },
        VK::Label => V { text: v.text + txt(e), ..v },
        VK::Nothing => v,
    }
}
pub open spec fn after_all(v: V, evs: Seq<Ev>) -> V
    decreases evs.len(),
{ if evs.len() == 0 { v } else { after(after_all(v, evs.drop_last()), evs.last()) } }
pub open spec fn step(old: V, new: V, r: Result, e: Ev) -> bool {
    &&& r.is_err() == new.broken
    &&& r.is_ok() ==> new == after(old, e)
    &&& !(old.kind is Parent) ==> r.is_ok()
}
pub open spec fn steps(old: V, new: V, r: Result, evs: Seq<Ev>) -> bool {
    &&& r.is_err() == new.broken
    // (a value sent whole does not touch the flag)
    &&& r.is_ok() ==> new == (V { seen: if old.kind is Parent { new.seen } else { old.seen }, ..after_all(old, evs) })
    &&& !(old.kind is Parent) ==> r.is_ok()
}
// Any stream that is not one of the crate's own label streams.
pub trait Parent<'sval>: Stream<'sval> {
    proof fn parent(&self) ensures self.at().kind is Parent;
}
pub trait Value { spec fn evs(&self) -> Seq<Ev>; }
''', trait, r'''
// Text is counted in bytes.
pub uninterp spec fn utf8_len(s: Seq<char>) -> nat;
pub open spec fn text_evs(s: Seq<char>) -> Seq<Ev> {
    seq![Ev::TextBegin(Some(utf8_len(s) as usize)), Ev::TextFragment(s, true), Ev::TextEnd]
}
impl Value for str { open spec fn evs(&self) -> Seq<Ev> { text_evs(self@) } }
pub proof fn text_steps(v: V, s: Seq<char>)
    ensures
        after_all(v, text_evs(s)) == after(after(after(v, text_evs(s)[0]), text_evs(s)[1]), text_evs(s)[2]),
        v.kind is Label ==> after_all(v, text_evs(s)) == (V { text: v.text + s, ..v }),
        v.kind is Nothing ==> after_all(v, text_evs(s)) == v,
        after_all(v, text_evs(s)).kind == v.kind, after_all(v, text_evs(s)).seen == v.seen, after_all(v, text_evs(s)).broken == v.broken,
{
    let t = text_evs(s);
    assert(t.drop_last() =~= seq![t[0], t[1]]);
    assert(t.drop_last().drop_last() =~= seq![t[0]]);
    assert(t.drop_last().drop_last().drop_last() =~= Seq::<Ev>::empty());
    reveal_with_fuel(after_all, 4);
    if v.kind is Label {
        assert(((v.text + txt(t[0])) + txt(t[1])) + txt(t[2]) =~= v.text + s);
        assert(v.text + txt(t[0]) =~= v.text);
    }
}
pub proof fn decs_push(b: Seq<u8>, x: u8)
    ensures decs(b.push(x)) == decs(b) + dec(x as int),
{ assert(b.push(x).drop_last() =~= b); }
pub proof fn text_facts()
    ensures forall|a: Seq<char>| #[trigger] (a + Seq::<char>::empty()) =~= a,
        forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) =~= a + (b + c),
{ }

impl Clone for Index {
    #[verifier::external_body]
    fn clone(&self) -> (r: Index) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn same_tag(o: Option<&Tag>, t: &Tag) -> (r: bool) ensures r == (ot(o) == Some(*t)) { unimplemented!() }

// ---------------------------------------------------------------- the default methods, for label streams
// (for any other stream they are C08's)
pub mod data {
use super::*;
// Display of an integer is trusted to print its digits
#[verifier::external_body]
pub fn stream_u128<'sval>(v: u128, stream: &mut (impl Stream<'sval> + ?Sized)) -> (r: Result)
    requires !((*old(stream)).at().kind is Parent), !(*old(stream)).at().broken,
    ensures step((*old(stream)).at(), (*final(stream)).at(), r, Ev::U128(v)),
{ unimplemented!() }
#[verifier::external_body]
pub fn stream_i128<'sval>(v: i128, stream: &mut (impl Stream<'sval> + ?Sized)) -> (r: Result)
    requires !((*old(stream)).at().kind is Parent), !(*old(stream)).at().broken,
    ensures step((*old(stream)).at(), (*final(stream)).at(), r, Ev::I128(v)),
{ unimplemented!() }
}
#[verifier::external_body]
pub fn stream_any<'sval, V: Value + ?Sized, S: Stream<'sval> + ?Sized>(v: &'sval V, stream: &mut S) -> (r: Result)
    requires !(*old(stream)).at().broken,
    ensures steps((*old(stream)).at(), (*final(stream)).at(), r, v.evs()),
{ unimplemented!() }
pub mod default_stream {
use super::*;
''']

SUBS = {"f32": r"//@sub \bvalue as f64\b => widen(value)", "value": r"//@sub \bv\.stream\(stream\) => stream_any(v, stream)",
        "value_computed": r"//@sub v\.stream\((?s:.)*\)\)?$ => stream_any(v, stream)",
        "tag": "//@as tag_\n//@sub if let Some\\(&([\\w:]+)\\)\\s*=\\s*(\\w+) => if is_tag(\\2, &\\1)\n//@sub \\bref\\s+(?=\\w) =>"}
for m in DEFAULTS:
    if m in ("value", "value_computed"):
        ens = "steps((*old(stream)).at(), (*final(stream)).at(), r, v.evs())"
        req = "!(*old(stream)).at().broken"
    else:
        ens = f"step((*old(stream)).at(), (*final(stream)).at(), r, {EVENTS[m]})"
        req = "!(*old(stream)).at().broken, !((*old(stream)).at().kind is Parent)"
    if m == "tag":
        req += ", (*old(stream)).at().kind is Nothing"
    o.append(f"//@fn sval | stream::default_stream::{m}\n")
    if m == "value_computed":
        o.append("//@sub v\\.stream\\(&mut Computed\\(stream\\)\\) => stream_any_computed(v, stream)\n")
    elif m in SUBS:
        o.append(SUBS[m] + "\n")
    o.append(f"//@spec\n    requires {req},\n    ensures {ens},\n")
    if m == "binary_fragment_computed":
        o.append(r'''//@loop 0
    invariant
        !((*stream).at().kind is Parent),
        (*stream).at() == after((*old(stream)).at(), Ev::BinaryFragment(fragment@.take(it.index@), true)), !(*stream).at().broken,
//@looptail 0
    proof {
        decs_push(fragment@.take(it.index@), fragment@[it.index@]);
        assert(fragment@.take(it.index@ + 1) =~= fragment@.take(it.index@).push(fragment@[it.index@]));
        text_facts();
    }
''')
        o.append("//@head\n    proof { text_facts(); assert(fragment@.take(0) =~= Seq::<u8>::empty()); assert(fragment@.take(fragment@.len() as int) =~= fragment@); assert(decs(Seq::<u8>::empty()) =~= Seq::<char>::empty()); }\n")
    elif m not in ("value", "value_computed"):
        h = "text_facts();"
        if "label" in SIGS[m]:
            h += " text_facts(); assert forall|v: V, s: Seq<char>| true implies { &&& (v.kind is Label ==> #[trigger] after_all(v, text_evs(s)) == (V { text: v.text + s, ..v })) &&& (v.kind is Nothing ==> after_all(v, text_evs(s)) == v) } by { text_steps(v, s); }"
        o.append(f"//@head\n    proof {{ {h} }}\n")
    o.append("//@end\n")
o.append("}\n")

o.append(r'''
// ---------------------------------------------------------------- labels

// discharged by specs/fragments.rs (C07)
#[verifier::external_body]
pub struct TextBuf<'sval> { p: core::marker::PhantomData<&'sval ()> }
pub struct BufError(());
impl<'sval> TextBuf<'sval> {
    pub uninterp spec fn content(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new() -> (r: TextBuf<'sval>) ensures r.content() == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_fragment(&mut self, fragment: &'sval str) -> (r: Result<(), BufError>)
        ensures r.is_ok(), (*final(self)).content() == (*old(self)).content() + fragment@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push_fragment_computed(&mut self, fragment: &str) -> (r: Result<(), BufError>)
        ensures r.is_ok(), (*final(self)).content() == (*old(self)).content() + fragment@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str)
        ensures r@ == self.content() { unimplemented!() }
    // `write!(buf, "{}", index)`: Display prints the number
    #[verifier::external_body]
    pub fn write_index(&mut self, index: &Index) -> (r: Result<(), BufError>)
        ensures r.is_ok(), (*final(self)).content() == (*old(self)).content() + dec(index@.num) { unimplemented!() }
}
pub mod itoa {
    use super::*;
    pub trait Integer: Sized { spec fn num(self) -> int; }
    impl Integer for i128 { open spec fn num(self) -> int { self as int } }
    impl Integer for u128 { open spec fn num(self) -> int { self as int } }
    #[verifier::external_body] pub struct Buffer(());
    impl Buffer {
        #[verifier::external_body] pub fn new() -> Buffer { unimplemented!() }
        #[verifier::external_body] pub fn format<I: Integer>(&mut self, i: I) -> (r: &str) ensures r@ == dec(i.num()) { unimplemented!() }
    }
}
pub mod ryu {
    use super::*;
    #[verifier::external_body] pub struct Buffer(());
    impl Buffer {
        #[verifier::external_body] pub fn new() -> Buffer { unimplemented!() }
        #[verifier::external_body] pub fn format(&mut self, i: f64) -> (r: &str) ensures r@ == ftxt(i) { unimplemented!() }
    }
}
// `TryInto<i128>` for the types it is used with: a number that fits.
pub trait IntoI128: Sized { spec fn num(self) -> int; fn to_wide(self) -> (r: core::result::Result<i128, ()>) ensures r.is_ok(), r->Ok_0 == self.num(); }
pub trait IntoU128: Sized { spec fn num(self) -> int; fn to_wide(self) -> (r: core::result::Result<u128, ()>) ensures r.is_ok(), r->Ok_0 == self.num(); }
pub trait IntoF64: Sized { spec fn num(self) -> f64; fn to_wide(self) -> (r: core::result::Result<f64, ()>) ensures r.is_ok(), r->Ok_0 == self.num(); }
''')
for t, w in (("isize", "i128"), ("i64", "i128"), ("i128", "i128"), ("usize", "u128"), ("u64", "u128"), ("u128", "u128")):
    o.append(f"impl Into{w.upper()} for {t} {{ open spec fn num(self) -> int {{ self as int }} fn to_wide(self) -> (r: core::result::Result<{w}, ()>) {{ Ok(self as {w}) }} }}\n")
o.append("impl IntoF64 for f64 { open spec fn num(self) -> f64 { self } fn to_wide(self) -> (r: core::result::Result<f64, ()>) { Ok(self) } }\n")
o.append(r'''
pub trait LabelStream<'sval>: Stream<'sval> {
    spec fn held(&self) -> Seq<char>;
    fn take(&mut self) -> (r: LabelBuf<'sval>)
        requires !(*old(self)).at().broken,
        ensures r.text() == taken((*old(self)).at()), (*final(self)).at() == left((*old(self)).at());
}
pub open spec fn left(v: V) -> V { if v.kind is Label { V { text: Seq::empty(), ..v } } else { v } }
pub open spec fn taken(v: V) -> Seq<char> { if v.kind is Label { v.text } else { Seq::empty() } }
//@use sval_flatten | label::LabelBuf
impl<'sval> LabelBuf<'sval> {
    pub open spec fn text(&self) -> Seq<char> {
        match self {
            LabelBuf::Empty => Seq::empty(),
            LabelBuf::Text(t) => t.content(),
            LabelBuf::I128(v) => dec(*v as int),
            LabelBuf::U128(v) => dec(*v as int),
            LabelBuf::F64(v) => ftxt(*v),
        }
    }
}
pub open spec fn grew(old: LabelBuf, new: LabelBuf, r: Result, t: Seq<char>) -> bool { r.is_ok() && new.text() =~= old.text() + t }
// `with_label` calls its argument once, with this label (its contract below); the closures
// that borrow mutably are inlined at the call, which the verifier cannot follow otherwise.
#[verifier::external_body]
pub fn label_of<'a, 'sval>(b: &'a LabelBuf<'sval>) -> (r: Label<'a>)
    ensures r@ == (LabelV { text: b.text(), tag: None }),
{ unimplemented!() }
#[verifier::external_body]
pub fn index_label<'a>(index: &Index, label: Option<&'a Label<'a>>) -> (r: Label<'a>)
    ensures r@ == index_label_v(index@, ol(label)),
{ unimplemented!() }
pub open spec fn index_label_v(index: IndexV, label: Option<LabelV>) -> LabelV {
    match label { Some(l) => l, None => LabelV { text: dec(index.num), tag: None } }
}
#[verifier::external_body]
pub fn take_label<'sval>(b: &mut LabelBuf<'sval>) -> (r: LabelBuf<'sval>)
    ensures r == *old(b), *final(b) == LabelBuf::<'sval>::Empty,
{ unimplemented!() }

//@fn sval_flatten | label::{impl<'sval> Default for LabelBuf<'sval>}::default
//@as label_default
//@sub \bSelf\b => LabelBuf<'sval>
//@sub fn label_default => fn label_default<'sval>
//@spec
    ensures r == LabelBuf::<'sval>::Empty,
//@end
impl<'sval> Default for LabelBuf<'sval> { fn default() -> (r: LabelBuf<'sval>) ensures r.text() == Seq::<char>::empty() { LabelBuf::Empty } }

//@impl sval_flatten | label::{impl<'sval> LabelBuf<'sval>}
//@sub \bimpl TryInto<i128> => impl IntoI128
//@sub \bimpl TryInto<u128> => impl IntoU128
//@sub \bimpl TryInto<f64> => impl IntoF64
//@sub v\.try_into\(\)\.map_err\(\|_\|\s*sval::Error::new\(\)\) => v.to_wide().map_err(|_e: ()| sval::Error::new())
//@sub buf\.write_fmt\(format_args!\("\{0\}",\s*(\w+)\)\) => buf.write_index(\1)
//@sub \.map_err\(\|_\|\s*sval::Error::new\(\)\) => .map_err(|_e: BufError| sval::Error::new())
//@inline (\w+)\.with_label => let $p_ = label_of(&*$1); let $p = &$p_;
//@spec new
    ensures r.text() == Seq::<char>::empty(),
//@spec from_index
    ensures r.is_ok(), r->Ok_0.text() == dec(index@.num),
//@head from_index
    proof { text_facts(); assert(Seq::<char>::empty() + dec(index@.num) =~= dec(index@.num)); }
//@spec i128
    ensures grew(*old(self), *final(self), r, dec(v.num())),
//@spec u128
    ensures grew(*old(self), *final(self), r, dec(v.num())),
//@spec f64
    ensures grew(*old(self), *final(self), r, ftxt(v.num())),
//@spec null
    ensures grew(*old(self), *final(self), r, "null"@),
//@spec bool
    ensures grew(*old(self), *final(self), r, if v { "true"@ } else { "false"@ }),
//@spec label
    ensures grew(*old(self), *final(self), r, label@.text),
//@spec index
    ensures grew(*old(self), *final(self), r, dec(index@.num)),
//@spec text_fragment
    ensures grew(*old(self), *final(self), r, fragment@),
//@spec text_fragment_computed
    ensures grew(*old(self), *final(self), r, fragment@),
//@spec text_buf
    ensures r.is_ok(), (*(r->Ok_0)).content() =~= (*old(self)).text(), (*final(self)).text() == (*final(r->Ok_0)).content(),
//@head with_label
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@spec with_label
    requires forall|l: &Label| l@ == (LabelV { text: self.text(), tag: None }) ==> #[trigger] call_requires(f, (l,)),
    ensures exists|l: &Label| l@ == (LabelV { text: self.text(), tag: None }) && #[trigger] call_ensures(f, (l,), r),
//@end
''')
lab = ["pub mod label_stream {\nuse super::*;\n//@impl sval_flatten | label::{impl<'sval> Stream<'sval> for LabelBuf<'sval>}\n//@trait sval | stream::Stream\n//@freefill LabelBuf<'sval>\n//@sub default_stream::tag\\( => default_stream::tag_(\n//@sub fn (inherited_\\w+)\\( => fn \\1<'sval>(\n//@ghost\n"
       "    open spec fn at(&self) -> V { V { kind: VK::Label, log: Seq::empty(), text: self.text(), broken: false, seen: false } }\n"]
emp = ["pub mod empty_stream {\nuse super::*;\n//@impl sval_flatten | label::{impl<'sval> Stream<'sval> for Empty}\n//@trait sval | stream::Stream\n//@freefill Empty\n//@sub default_stream::tag\\( => default_stream::tag_(\n//@sub fn (inherited_\\w+)\\( => fn \\1<'sval>(\n//@ghost\n"
       "    open spec fn at(&self) -> V { V { kind: VK::Nothing, log: Seq::empty(), text: Seq::empty(), broken: false, seen: false } }\n"]
for m, ev in EVENTS.items():
    fs = f"//@freespec {m}\n    requires !(*old(self_)).at().broken,\n    ensures step((*old(self_)).at(), (*final(self_)).at(), r, {ev}),\n"
    lab.append(fs + f"//@head {m}\n    proof {{ text_facts(); }}\n")
    emp.append(fs)
o += lab + ["//@end\n}\n", r'''
impl<'sval> LabelStream<'sval> for LabelBuf<'sval> {
    open spec fn held(&self) -> Seq<char> { self.text() }
//@fn sval_flatten | label::{impl<'sval> LabelStream<'sval> for LabelBuf<'sval>}::take
//@sub mem::take\(self\) => take_label(self)
//@end
}
//@use sval_flatten | label::Empty
'''] + emp + ["//@end\n}\n", r'''
impl<'sval> LabelStream<'sval> for Empty {
    open spec fn held(&self) -> Seq<char> { Seq::empty() }
//@fn sval_flatten | label::{impl<'sval> LabelStream<'sval> for Empty}::take
//@sub Default::default\(\) => <LabelBuf<'sval> as Default>::default()
//@end
}
//@fn sval_flatten | flattener::with_index_to_label
//@spec
    requires forall|l: &Label| l@ == index_label_v(index@, ol(label)) ==> #[trigger] call_requires(f, (l,)),
    ensures exists|l: &Label| l@ == index_label_v(index@, ol(label)) && #[trigger] call_ensures(f, (l,), r),
//@end

// ---------------------------------------------------------------- indexes

//@use sval_flatten | index::IndexAllocator
pub open spec fn offset_tag() -> Option<Tag> { Some(tags::VALUE_OFFSET) }
pub open spec fn fits_isize(n: int) -> bool { isize::MIN <= n <= isize::MAX }
// A relative index continues the parent's; any other is kept.
pub open spec fn index_v(init: int, cur: int, incoming: Option<IndexV>) -> IndexV {
    match incoming {
        Some(i) => if i.tag == offset_tag() && fits_isize(i.num) { IndexV { num: i.num + init, tag: offset_tag() } } else { i },
        None => IndexV { num: cur, tag: offset_tag() },
    }
}
pub open spec fn cur_v(init: int, cur: int, incoming: Option<IndexV>) -> int {
    let i = index_v(init, cur, incoming);
    if fits_isize(i.num) { i.num + 1 } else { cur + 1 }
}
pub open spec fn index_fits(init: int, cur: int, incoming: Option<IndexV>) -> bool {
    &&& incoming is Some && incoming->Some_0.tag == offset_tag() && fits_isize(incoming->Some_0.num) ==> fits_isize(incoming->Some_0.num + init)
    &&& fits_isize(cur_v(init, cur, incoming))
}
impl IndexAllocator {
//@fn sval_flatten | index::{impl IndexAllocator}::start_from
//@spec
    ensures r.initial_offset == offset, r.current_offset == offset,
//@end
//@fn sval_flatten | index::{impl IndexAllocator}::next_begin
//@sub \(Some\(&sval::tags::VALUE_OFFSET\), Some\(incoming\)\) => (Some(tag_), Some(incoming)) if is_tag(Some(tag_), &sval::tags::VALUE_OFFSET)
//@spec
    requires index_fits((*old(self)).initial_offset as int, (*old(self)).current_offset as int, oi(incoming)),
    ensures *final(self) == *old(self), r@ == index_v((*old(self)).initial_offset as int, (*old(self)).current_offset as int, oi(incoming)),
//@end
//@fn sval_flatten | index::{impl IndexAllocator}::next_end
//@spec
    requires index_fits((*old(self)).initial_offset as int, (*old(self)).current_offset as int, oi(incoming)),
    ensures r@ == index_v((*old(self)).initial_offset as int, (*old(self)).current_offset as int, oi(incoming)),
        (*final(self)).initial_offset == (*old(self)).initial_offset,
        (*final(self)).current_offset == cur_v((*old(self)).initial_offset as int, (*old(self)).current_offset as int, oi(incoming)),
//@end
//@fn sval_flatten | index::{impl IndexAllocator}::current_offset
//@spec
    ensures r == self.current_offset,
//@end
}

// ---------------------------------------------------------------- the kinds of parent

pub ghost enum Kind { Map, Seq, Record, Tuple, RecordTuple }
// s: the parent's stream; l: the stream that labels go to (a map's keys go to the parent itself).
pub ghost struct FV { pub k: Kind, pub s: V, pub l: V }
pub open spec fn get_l(v: FV) -> V { if v.k is Map { v.s } else { v.l } }
pub open spec fn put_l(v: FV, l: V) -> FV { if v.k is Map { FV { s: l, ..v } } else { FV { l, ..v } } }
pub open spec fn put_s(v: FV, s: V) -> FV { FV { s, ..v } }
// The documented key of a flattened value for each kind of parent.
pub open spec fn value_begin_v(k: Kind, s: V, tag: Option<Tag>, label: LabelV, index: IndexV) -> V {
    match k {
        Kind::Map => after(if s.seen { s } else { after(after_all(after(s, Ev::MapKeyBegin), text_evs(label.text)), Ev::MapKeyEnd) }, Ev::MapValueBegin),
        Kind::Seq => after(s, Ev::SeqValueBegin),
        Kind::Record => after(s, Ev::RecordValueBegin(tag, label)),
        Kind::Tuple => after(s, Ev::TupleValueBegin(tag, index)),
        Kind::RecordTuple => after(s, Ev::RecordTupleValueBegin(tag, label, index)),
    }
}
pub open spec fn value_end_v(k: Kind, s: V, tag: Option<Tag>, label: LabelV, index: IndexV) -> V {
    match k {
        Kind::Map => after(s, Ev::MapValueEnd),
        Kind::Seq => after(s, Ev::SeqValueEnd),
        Kind::Record => after(s, Ev::RecordValueEnd(tag, label)),
        Kind::Tuple => after(s, Ev::TupleValueEnd(tag, index)),
        Kind::RecordTuple => after(s, Ev::RecordTupleValueEnd(tag, label, index)),
    }
}
pub open spec fn sound(v: FV) -> bool { v.s.kind is Parent && !v.s.broken && !get_l(v).broken && (v.k is Map || !(v.l.kind is Parent)) }
pub trait Flatten<'sval>: Sized {
    type Stream: Stream<'sval>;
    type LabelStream: LabelStream<'sval>;
    spec fn fv(&self) -> FV;
    fn stream(&mut self) -> (r: &mut Self::Stream)
        ensures (*r).at() == (*old(self)).fv().s, (*final(self)).fv() == put_s((*old(self)).fv(), (*final(r)).at());
    fn label_stream(&mut self) -> (r: &mut Self::LabelStream)
        ensures (*r).at() == get_l((*old(self)).fv()), (*final(self)).fv() == put_l((*old(self)).fv(), (*final(r)).at());
    fn flattened_value_begin(&mut self, tag: Option<&Tag>, label: &Label, index: &Index) -> (r: Result)
        requires sound((*old(self)).fv()),
        ensures r.is_err() == (*final(self)).fv().s.broken,
            r.is_ok() ==> (*final(self)).fv() == put_s((*old(self)).fv(), value_begin_v((*old(self)).fv().k, (*old(self)).fv().s, ot(tag), label@, index@));
    fn flattened_value_end(&mut self, tag: Option<&Tag>, label: &Label, index: &Index) -> (r: Result)
        requires sound((*old(self)).fv()),
        ensures r.is_err() == (*final(self)).fv().s.broken,
            r.is_ok() ==> (*final(self)).fv() == put_s((*old(self)).fv(), value_end_v((*old(self)).fv().k, (*old(self)).fv().s, ot(tag), label@, index@));
}

// A map's own keys pass through; a value without one gets its label for a key.
//@use sval_flatten | map::PassThru
impl<S> PassThru<S> {
//@fn sval_flatten | map::{impl<S> PassThru<S>}::new
//@spec
    ensures r.stream == stream, !r.seen_key,
//@end
}
//@impl sval_flatten | map::{impl<'sval, S: Stream<'sval>> Stream<'sval> for PassThru<S>}
//@trait sval | stream::Stream
//@sub S: Stream< => S: Parent<
//@ghost
    open spec fn at(&self) -> V { V { seen: self.seen_key, ..self.stream.at() } }
//@head *
    broadcast use seen_all;
    proof { self.stream.parent(); }
//@end
// Whatever the inner stream's ghost state says of keys, the events are the same.
pub broadcast proof fn seen_all(v: V, b: bool, evs: Seq<Ev>)
    ensures v.kind is Parent ==> (#[trigger] after_all(V { seen: b, ..v }, evs)) == (V { seen: after_all(V { seen: b, ..v }, evs).seen, ..after_all(v, evs) }),
    decreases evs.len(),
{ if evs.len() > 0 { seen_all(v, b, evs.drop_last()); } }
impl<'sval, S: Parent<'sval>> LabelStream<'sval> for PassThru<S> {
    open spec fn held(&self) -> Seq<char> { Seq::empty() }
//@fn sval_flatten | map::{impl<'sval, S: Stream<'sval>> LabelStream<'sval> for PassThru<S>}::take
//@head
    proof { self.stream.parent(); }
//@end
}
''']

KINDS = [("Map", "map", "MapFlatten<S>"), ("Seq", "seq", "SeqFlatten<S>"), ("Record", "record", "RecordFlatten<'sval, S>"),
         ("Tuple", "tuple", "TupleFlatten<S>"), ("RecordTuple", "record_tuple", "RecordTupleFlatten<'sval, S>")]
for k, mod, ty in KINDS:
    o.append(f"//@use sval_flatten | {mod}::{ty.split('<')[0]}\n")
    l = "V { kind: VK::Nothing, log: Seq::empty(), text: Seq::empty(), broken: false, seen: false }" if k == "Map" else "self.label_stream.at()"
    s, ls = ("PassThru<S>", "PassThru<S>") if k == "Map" else ("S", "LabelBuf<'sval>" if "Record" in k else "Empty")
    o.append(f"//@impl sval_flatten | {mod}::{{impl<'sval, S: Stream<'sval>> Flatten<'sval> for {ty}}}\n//@sub S: Stream< => S: Parent<\n//@head *\n    proof {{ self.stream{'.stream' if k == 'Map' else ''}.parent(); assert forall|v: V, s: Seq<char>| true implies (#[trigger] after_all(v, text_evs(s))).kind == v.kind by {{ text_steps(v, s); }} }}\n//@ghost\n    type Stream = {s};\n    type LabelStream = {ls};\n"
             f"    open spec fn fv(&self) -> FV {{ FV {{ k: Kind::{k}, s: self.stream.at(), l: {l} }} }}\n//@end\n")

# ---------------------------------------------------------------- the flattener
T3 = "ot(tag), ol(label), oi(index)"
o.append(r"""
// ---------------------------------------------------------------- the flattener

//@use sval_flatten | flattener::FlattenerState
//@use sval_flatten | flattener::Flattener
// Where the flattener is in the child, where its indexes are, and what the parent has got.
pub ghost struct X { pub depth: nat, pub en: bool, pub key: bool, pub init: int, pub cur: int, pub kb: Seq<char>, pub fv: FV }
pub open spec fn xs(fv: FV, st: FlattenerState) -> X {
    X { depth: st.depth as nat, en: st.in_flattening_enum, key: st.in_flattening_map_key,
        init: st.index_alloc.initial_offset as int, cur: st.index_alloc.current_offset as int, kb: st.key_buf.text(), fv }
}
impl<'sval, S: Flatten<'sval>> Flattener<'sval, S> {
    pub open spec fn x(&self) -> X { xs(self.stream.fv(), self.state) }
}
pub open spec fn to_key(x: X, e: Ev) -> X { X { fv: put_l(x.fv, after(get_l(x.fv), e)), ..x } }
pub open spec fn to_parent(x: X, e: Ev) -> X { X { fv: put_s(x.fv, after(x.fv.s, e)), ..x } }
// A value of the child's own starts or ends: it goes onto the parent.
pub open spec fn open_v(x: X, tag: Option<Tag>, label: LabelV, i: Option<IndexV>) -> X {
    X { fv: put_s(x.fv, value_begin_v(x.fv.k, x.fv.s, tag, label, index_v(x.init, x.cur, i))), ..x }
}
pub open spec fn close_v(x: X, tag: Option<Tag>, label: LabelV, i: Option<IndexV>) -> X {
    X { fv: put_s(x.fv, value_end_v(x.fv.k, x.fv.s, tag, label, index_v(x.init, x.cur, i))), cur: cur_v(x.init, x.cur, i), ..x }
}
pub open spec fn ilabel(x: X, i: Option<IndexV>, l: Option<LabelV>) -> LabelV { index_label_v(index_v(x.init, x.cur, i), l) }
pub open spec fn is_begin(x: X, e: Ev) -> bool {
    e is MapBegin || e is SeqBegin || e is RecordBegin || e is TupleBegin || e is RecordTupleBegin || (e is TaggedBegin && x.en)
}
pub open spec fn is_end(x: X, e: Ev) -> bool {
    e is MapEnd || e is SeqEnd || e is RecordEnd || e is TupleEnd || e is RecordTupleEnd || (e is TaggedEnd && x.en)
}
pub open spec fn is_mark(e: Ev) -> bool {
    e is MapKeyBegin || e is MapKeyEnd || e is MapValueBegin || e is MapValueEnd || e is SeqValueBegin || e is SeqValueEnd || e is RecordValueBegin || e is RecordValueEnd
        || e is TupleValueBegin || e is TupleValueEnd || e is RecordTupleValueBegin || e is RecordTupleValueEnd
}
// What the child's own events (those at its surface) do.
pub open spec fn flat(x: X, e: Ev) -> X {
    match e {
        Ev::MapKeyBegin => X { key: true, ..to_key(x, e) },
        Ev::MapKeyEnd => X { key: false, ..to_key(x, e) },
        Ev::MapValueBegin => {
            let t = taken(get_l(x.fv));
            open_v(X { kb: t, fv: put_l(x.fv, left(get_l(x.fv))), ..x }, None, LabelV { text: t, tag: None }, None)
        },
        Ev::MapValueEnd => close_v(x, None, LabelV { text: x.kb, tag: None }, None),
        Ev::SeqValueBegin => open_v(x, None, ilabel(x, None, None), None),
        Ev::SeqValueEnd => close_v(x, None, ilabel(x, None, None), None),
        Ev::RecordValueBegin(t, l) => open_v(x, t, l, None),
        Ev::RecordValueEnd(t, l) => close_v(x, t, l, None),
        Ev::TupleValueBegin(t, i) => open_v(x, t, ilabel(x, Some(i), None), Some(i)),
        Ev::TupleValueEnd(t, i) => close_v(x, t, ilabel(x, Some(i), None), Some(i)),
        Ev::RecordTupleValueBegin(t, l, i) => open_v(x, t, l, Some(i)),
        Ev::RecordTupleValueEnd(t, l, i) => close_v(x, t, l, Some(i)),
        // a variant of a flattened enum is a value of its own
        Ev::TaggedBegin(_, l, i) => open_v(x, None, ilabel(x, i, l), i),
        Ev::TaggedEnd(_, l, i) => close_v(x, None, ilabel(x, i, l), i),
        _ => x,
    }
}
pub open spec fn act(x: X, e: Ev) -> X {
    if is_begin(x, e) {
        let y = X { depth: x.depth + 1, ..x };
        if x.key { to_key(y, e) } else if x.depth == 0 { flat(y, e) } else { to_parent(y, e) }
    } else if is_end(x, e) {
        let y = if x.key { to_key(x, e) } else if x.depth == 1 { flat(x, e) } else { to_parent(x, e) };
        X { depth: (x.depth - 1) as nat, ..y }
    } else if is_mark(e) {
        if x.depth == 1 { flat(x, e) } else if x.key { to_key(x, e) } else { to_parent(x, e) }
    } else if x.depth == 0 {
        // a scalar has nothing to flatten
        if e is EnumBegin { X { en: true, ..x } } else if e is EnumEnd { X { en: false, ..x } } else { x }
    } else if x.key { to_key(x, e) } else { to_parent(x, e) }
}
pub open spec fn enum_at_root(x: X, e: Ev) -> X { if e is EnumBegin { X { en: true, ..x } } else { X { en: false, ..x } } }
pub open spec fn index_of(e: Ev) -> Option<IndexV> {
    match e {
        Ev::TupleValueBegin(_, i) => Some(i), Ev::TupleValueEnd(_, i) => Some(i),
        Ev::RecordTupleValueBegin(_, _, i) => Some(i), Ev::RecordTupleValueEnd(_, _, i) => Some(i),
        Ev::TaggedBegin(_, _, i) => i, Ev::TaggedEnd(_, _, i) => i,
        _ => None,
    }
}
// The child's own events, as opposed to those of the values and keys in it.
pub open spec fn surface(x: X, e: Ev) -> bool {
    (is_begin(x, e) && x.depth == 0 && !x.key) || (is_end(x, e) && x.depth == 1 && !x.key) || (is_mark(e) && x.depth == 1)
}
// Nothing overflows: no index leaves isize, and no end without a begin.
pub open spec fn fits(x: X, e: Ev) -> bool {
    &&& is_begin(x, e) ==> x.depth < usize::MAX
    &&& is_end(x, e) || is_mark(e) ==> x.depth > 0
    &&& surface(x, e) ==> index_fits(x.init, x.cur, index_of(e))
}
pub open spec fn acted(old: X, new: X, r: Result, e: Ev) -> bool {
    &&& r.is_err() == new.fv.s.broken
    &&& r.is_ok() ==> new == act(old, e)
}
pub open spec fn deeper(st: FlattenerState) -> FlattenerState { FlattenerState { depth: (st.depth + 1) as usize, ..st } }
impl<'sval, S: Flatten<'sval>> Flattener<'sval, S> {
""")
FI = "flattener::{impl<'sval, S: Flatten<'sval>> Flattener<'sval, S>}::"
LS, PS, FS = "b: &mut S::LabelStream", "p: &mut S::Stream", "s: &mut S, st: &mut FlattenerState<'sval>"
L0, P0, S0 = "(*b).at() == get_l((*old(self)).stream.fv())", "(*p).at() == (*old(self)).stream.fv().s", "*s == (*old(self)).stream && *st == {}"


def route(case_b, case_p, case_f, st="(*old(self)).state", depth=0, closures=("buffer", "passthru", "flatten"), end=False):
    """The contract of a helper that calls exactly one of its closures."""
    req = [f"{case_b} ==> forall|{LS}| {L0} ==> #[trigger] call_requires({closures[0]}, (b,))",
           f"{case_p} ==> forall|{PS}| {P0} ==> #[trigger] call_requires({closures[1]}, (p,))"]
    q = ", q: Result" if end else ""
    rq = "q" if end else "r"
    rr = " && r.is_ok() == q.is_ok()" if end else ""
    if depth == 1:
        nx = lambda fv: f"(*final(self)).x() == (X {{ depth: (*old(self)).x().depth + 1, fv: {fv}, ..(*old(self)).x() }})"
    elif end:
        nx = lambda fv: f"(*final(self)).x().fv == {fv} && (r.is_ok() ==> (*final(self)).x() == (X {{ depth: ((*old(self)).x().depth - 1) as nat, fv: {fv}, ..(*old(self)).x() }}))"
    else:
        nx = lambda fv: f"(*final(self)).x() == (X {{ fv: {fv}, ..(*old(self)).x() }})"
    ens = [f"{case_b} ==> exists|{LS}{q}| {L0} && #[trigger] call_ensures({closures[0]}, (b,), {rq}){rr} && {nx('put_l((*old(self)).stream.fv(), (*final(b)).at())')}",
           f"{case_p} ==> exists|{PS}{q}| {P0} && #[trigger] call_ensures({closures[1]}, (p,), {rq}){rr} && {nx('put_s((*old(self)).stream.fv(), (*final(p)).at())')}"]
    if case_f:
        req.append(f"{case_f} ==> forall|{FS}| {S0.format(st)} ==> #[trigger] call_requires({closures[2]}, (s, st))")
        if end:
            fx = "(*final(self)).stream == *final(s) && (r.is_ok() ==> (*final(self)).state == (FlattenerState { depth: ((*final(st)).depth - 1) as usize, ..*final(st) }))"
            req.append(f"{case_f} ==> forall|{FS}, q: Result| {S0.format(st)} && #[trigger] call_ensures({closures[2]}, (s, st), q) ==> (*final(st)).depth > 0")
        else:
            fx = "(*final(self)).stream == *final(s) && (*final(self)).state == *final(st)"
        ens.append(f"{case_f} ==> exists|{FS}{q}| {S0.format(st)} && #[trigger] call_ensures({closures[2]}, (s, st), {rq}){rr} && {fx}")
    return req, ens


def helper(name, req, ens):
    o.append(f"//@fn sval_flatten | {FI}{name}\n//@spec\n    requires\n" + "".join(f"        {x},\n" for x in req) + "    ensures\n" + "".join(f"        {x},\n" for x in ens))


KEY, D = "(*old(self)).state.in_flattening_map_key", "(*old(self)).state.depth"
o.append(f"""//@fn sval_flatten | {FI}begin
//@spec
    requires stream.fv().s.kind is Parent,
    ensures r.x() == (X {{ depth: 0, en: false, key: false, init: start_from as int, cur: start_from as int, kb: Seq::empty(), fv: stream.fv() }}), r.stream == stream,
//@end
//@fn sval_flatten | {FI}end
//@spec
    ensures r == self.x().cur,
//@end
""")
req, ens = route(f"{D} > 0 && {KEY}", f"{D} > 0 && !{KEY}", f"{D} == 0", closures=("buffer", "passthru", "at_root"))
helper("value_at_root", req, ens)
o.append("//@end\n")
req, ens = route(f"{D} > 0 && {KEY}", f"{D} > 0 && !{KEY}", None)
helper("value", req, ens + [f"{D} == 0 ==> r.is_ok() && *final(self) == *old(self)"])
o.append("//@closure 2\n&mut S; &mut FlattenerState<'sval> -> (q: Result)\n    ensures q.is_ok(), *final($1) == *old($1), *final($2) == *old($2),\n//@end\n")
req, ens = route(KEY, f"!{KEY} && {D} > 0", f"!{KEY} && {D} == 0", st="deeper((*old(self)).state)", depth=1)
helper("flattenable_begin", [f"{D} < usize::MAX"] + req, ens)
o.append("//@end\n")
req, ens = route(f"{D} != 1 && {KEY}", f"{D} != 1 && !{KEY}", f"{D} == 1")
helper("flattenable_value", [f"{D} > 0"] + req, ens)
o.append("//@end\n")
req, ens = route(KEY, f"!{KEY} && {D} != 1", f"!{KEY} && {D} == 1", end=True)
helper("flattenable_end", [f"{D} > 0"] + req, ens)
o.append("//@end\n}\n")

o.append("""// The stream methods, as the flattener itself (its `value` is the helper above).
//@impl sval_flatten | flattener::{impl<'sval, S: Flatten<'sval>> Stream<'sval> for Flattener<'sval, S>}
//@header impl<'sval, S: Flatten<'sval>> Flattener<'sval, S>
//@attr #[verifier::spinoff_prover]
//@inline ([\\w.]+)\\.with_label => let $p_ = label_of(&$1); let $p = &$p_;
//@inline with_index_to_label => let $p_ = index_label($a1, $a2); let $p = &$p_;
""")
for m, ev in EVENTS.items():
    o.append(f"""//@spec {m}
    requires sound((*old(self)).x().fv), fits((*old(self)).x(), {ev}),
    ensures acted((*old(self)).x(), (*final(self)).x(), r, {ev}),
//@closure 1 {m}
&mut S::LabelStream -> (q: Result)
    requires !(*old($1)).at().broken,
    ensures step((*old($1)).at(), (*final($1)).at(), q, {ev}),
===
&mut S::Stream -> (q: Result)
    requires !(*old($1)).at().broken,
    ensures step((*old($1)).at(), (*final($1)).at(), q, {ev}),
//@closure 2 {m}
&mut S; &mut FlattenerState<'sval> -> (q: Result)
    requires sound((*old($1)).fv()), {'true || ' if m in ('enum_begin', 'enum_end') else ''}index_fits((*old($2)).index_alloc.initial_offset as int, (*old($2)).index_alloc.current_offset as int, index_of({ev})),
    ensures q.is_err() == (*final($1)).fv().s.broken,
        (*final($2)).depth == (*old($2)).depth,
        q.is_ok() ==> xs((*final($1)).fv(), *final($2)) == {'enum_at_root' if m in ('enum_begin', 'enum_end') else 'flat'}(xs((*old($1)).fv(), *old($2)), {ev}),
""")
o.append("//@end\n")


o.append(r"""
// ---------------------------------------------------------------- whole values

#[verifier::opaque]
pub open spec fn run(x: X, evs: Seq<Ev>) -> X
    decreases evs.len(),
{ if evs.len() == 0 { x } else { act(run(x, evs.drop_last()), evs.last()) } }
#[verifier::opaque]
pub open spec fn run_fits(x: X, evs: Seq<Ev>) -> bool
    decreases evs.len(),
{ evs.len() == 0 || (run_fits(x, evs.drop_last()) && fits(run(x, evs.drop_last()), evs.last())) }
// Whether a value reports an error of its own.
pub uninterp spec fn fails<T: ?Sized>(v: &T) -> bool;
// `v.stream(stream)`: the value makes the calls of its events, in order, until one fails. `out`
// keeps the state that is reached.
#[verifier::external_body]
pub fn drive<'sval, T: Value + ?Sized, S: Flatten<'sval>>(v: &'sval T, stream: &mut Flattener<'sval, S>, out: &mut Ghost<X>) -> (r: Result)
    requires sound((*old(stream)).x().fv), run_fits((*old(stream)).x(), v.evs()),
    ensures (*final(out))@ == (*final(stream)).x(),
        r.is_ok() ==> !fails(v) && (*final(stream)).x() == run((*old(stream)).x(), v.evs()),
        r.is_err() ==> fails(v) || (*final(stream)).x().fv.s.broken,
{ unimplemented!() }
pub open spec fn nothing_v() -> V { V { kind: VK::Nothing, log: Seq::empty(), text: Seq::empty(), broken: false, seen: false } }
pub open spec fn start(k: Kind, s: V, offset: int) -> X {
    X { depth: 0, en: false, key: false, init: offset, cur: offset, kb: Seq::empty(),
        fv: FV { k, s: if k is Map { V { seen: false, ..s } } else { s },
            l: if k is Record || k is RecordTuple { V { kind: VK::Label, ..nothing_v() } } else { nothing_v() } } }
}
""")
for k, mod, ty in KINDS:
    off = "0" if k == "Seq" else "offset as int"
    ret = "" if k == "Seq" else " && r->Ok_0 == (*final(out))@.cur"
    o.append(f"""//@fn sval_flatten | {mod}::flatten_to_{mod}
//@sub stream:\\s*&mut\\s*\\(impl\\s+Stream<'sval>\\s*\\+\\s*\\?Sized\\) => stream: P
//@sub fn flatten_to_(\\w+)<'sval>\\( => fn flatten_to_\\1<'sval, P: Parent<'sval>>(out: &mut Ghost<X>,
//@sub impl\\s+sval::Value\\s*\\+ => impl Value +
//@sub value\\.stream\\(&mut stream\\) => drive(value, &mut stream, out)
//@sub LabelBuf::default\\(\\) => <LabelBuf<'sval> as Default>::default()
//@spec
    requires !stream.at().broken, run_fits(start(Kind::{k}, stream.at(), {off}), value.evs()),
    ensures r.is_ok() ==> !fails(value) && (*final(out))@ == run(start(Kind::{k}, stream.at(), {off}), value.evs()){ret},
        r.is_err() ==> fails(value) || (*final(out))@.fv.s.broken,
//@head
    proof {{ stream.parent(); }}
//@end
""")

o.append(r"""
pub proof fn run_app(x: X, a: Seq<Ev>, b: Seq<Ev>)
    ensures run(x, a + b) == run(run(x, a), b), run_fits(x, a + b) == (run_fits(x, a) && run_fits(run(x, a), b)),
    decreases b.len(),
{
    reveal(run); reveal(run_fits);
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); run_app(x, a, b.drop_last()); }
}
pub proof fn run_last(x: X, evs: Seq<Ev>)
    requires evs.len() > 0,
    ensures run(x, evs) == act(run(x, evs.drop_last()), evs.last()), run_fits(x, evs) == (run_fits(x, evs.drop_last()) && fits(run(x, evs.drop_last()), evs.last())),
{ reveal(run); reveal(run_fits); }
pub proof fn run_none(x: X, evs: Seq<Ev>)
    requires evs.len() == 0,
    ensures run(x, evs) == x, run_fits(x, evs),
{ reveal(run); reveal(run_fits); }
pub proof fn act_inside_value(x: X, e: Ev)
    requires !x.key, x.depth >= 1, x.depth < usize::MAX, ends(x.en, e) || is_mark(e) ==> x.depth >= 2,
    ensures act(x, e) == (X { depth: (x.depth + (if begins(x.en, e) { 1int } else if ends(x.en, e) { -1int } else { 0int })) as nat, fv: put_s(x.fv, after(x.fv.s, e)), ..x }), fits(x, e),
{ }
pub proof fn act_inside_key(x: X, e: Ev)
    requires x.key, x.depth >= 1, x.depth < usize::MAX, ends(x.en, e) || is_mark(e) ==> x.depth >= 2,
    ensures act(x, e) == (X { depth: (x.depth + (if begins(x.en, e) { 1int } else if ends(x.en, e) { -1int } else { 0int })) as nat, fv: put_l(x.fv, after(get_l(x.fv), e)), ..x }), fits(x, e),
{ }
pub proof fn after_app(v: V, a: Seq<Ev>, b: Seq<Ev>)
    ensures after_all(v, a + b) == after_all(after_all(v, a), b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); after_app(v, a, b.drop_last()); }
}
pub proof fn run_one(x: X, e: Ev)
    ensures run(x, seq![e]) == act(x, e), run_fits(x, seq![e]) == fits(x, e),
{
    assert(seq![e].drop_last() =~= Seq::<Ev>::empty());
    run_last(x, seq![e]); run_none(x, seq![e].drop_last());
}
pub proof fn after_one(v: V, e: Ev)
    ensures after_all(v, seq![e]) == after(v, e),
{ assert(seq![e].drop_last() =~= Seq::<Ev>::empty()); reveal_with_fuel(after_all, 2); }
pub proof fn after_kept(v: V, evs: Seq<Ev>)
    ensures after_all(v, evs).kind == v.kind, after_all(v, evs).broken == v.broken, v.kind is Nothing ==> after_all(v, evs) == v,
    decreases evs.len(),
{ if evs.len() > 0 { after_kept(v, evs.drop_last()); } }

// The depth that events reach, relative to where they start; none of them may be at the surface.
pub open spec fn begins(en: bool, e: Ev) -> bool { is_begin(X { en, ..arbitrary() }, e) }
pub open spec fn ends(en: bool, e: Ev) -> bool { is_end(X { en, ..arbitrary() }, e) }
pub open spec fn height(en: bool, evs: Seq<Ev>) -> int
    decreases evs.len(),
{
    if evs.len() == 0 { 0 } else {
        let h = height(en, evs.drop_last());
        if begins(en, evs.last()) { h + 1 } else if ends(en, evs.last()) { h - 1 } else { h }
    }
}
pub open spec fn within(en: bool, evs: Seq<Ev>) -> bool
    decreases evs.len(),
{
    evs.len() == 0 || {
        let h = height(en, evs.drop_last());
        within(en, evs.drop_last()) && h >= 0 && (ends(en, evs.last()) || is_mark(evs.last()) ==> h >= 1)
    }
}
// The events of one value: what was begun in it ended in it, and every key in it got its value.
pub open spec fn one_value(en: bool, evs: Seq<Ev>) -> bool {
    within(en, evs) && height(en, evs) == 0 && !after_all(V { kind: VK::Parent, ..nothing_v() }, evs).seen
}
pub proof fn seen_after(v: V, w: V, evs: Seq<Ev>)
    requires v.kind is Parent, w.kind is Parent, v.seen == w.seen,
    ensures after_all(v, evs).seen == after_all(w, evs).seen,
    decreases evs.len(),
{ if evs.len() > 0 { seen_after(v, w, evs.drop_last()); after_kept(v, evs.drop_last()); after_kept(w, evs.drop_last()); } }

// Whatever is inside a value of the child reaches the parent unchanged.
pub proof fn inside_value(x: X, evs: Seq<Ev>)
    requires within(x.en, evs), !x.key, x.depth >= 1, x.depth + evs.len() < usize::MAX,
    ensures run(x, evs) == (X { depth: (x.depth + height(x.en, evs)) as nat, fv: put_s(x.fv, after_all(x.fv.s, evs)), ..x }),
        run_fits(x, evs), -1 <= height(x.en, evs) <= evs.len(), evs.len() > 0 ==> height(x.en, evs) >= 0,
    decreases evs.len(),
{
    if evs.len() > 0 {
        inside_value(x, evs.drop_last());
        run_last(x, evs);
        act_inside_value(run(x, evs.drop_last()), evs.last());
    } else {
        run_none(x, evs);
        assert(put_s(x.fv, x.fv.s) == x.fv);
    }
}
// Whatever is inside a key goes where the parent's kind wants keys.
pub proof fn inside_key(x: X, evs: Seq<Ev>)
    requires within(x.en, evs), x.key, x.depth >= 1, x.depth + evs.len() < usize::MAX,
    ensures run(x, evs) == (X { depth: (x.depth + height(x.en, evs)) as nat, fv: put_l(x.fv, after_all(get_l(x.fv), evs)), ..x }),
        run_fits(x, evs), -1 <= height(x.en, evs) <= evs.len(), evs.len() > 0 ==> height(x.en, evs) >= 0,
    decreases evs.len(),
{
    if evs.len() > 0 {
        inside_key(x, evs.drop_last());
        run_last(x, evs);
        act_inside_key(run(x, evs.drop_last()), evs.last());
    } else {
        run_none(x, evs);
        assert(put_l(x.fv, get_l(x.fv)) == x.fv);
    }
}

// The values at a child's surface.
pub ghost enum Item {
    Seq(Seq<Ev>),
    Map(Seq<Ev>, Seq<Ev>),
    Record(Option<Tag>, LabelV, Seq<Ev>),
    Tuple(Option<Tag>, IndexV, Seq<Ev>),
    RecordTuple(Option<Tag>, LabelV, IndexV, Seq<Ev>),
}
pub open spec fn key_evs(k: Seq<Ev>) -> Seq<Ev> { seq![Ev::MapKeyBegin] + k + seq![Ev::MapKeyEnd] }
pub open spec fn content(i: Item) -> Seq<Ev> {
    match i { Item::Seq(v) => v, Item::Map(_, v) => v, Item::Record(_, _, v) => v, Item::Tuple(_, _, v) => v, Item::RecordTuple(_, _, _, v) => v }
}
pub open spec fn item_begin(i: Item) -> Ev {
    match i { Item::Seq(v) => Ev::SeqValueBegin, Item::Map(_, v) => Ev::MapValueBegin, Item::Record(t, l, v) => Ev::RecordValueBegin(t, l),
        Item::Tuple(t, n, v) => Ev::TupleValueBegin(t, n), Item::RecordTuple(t, l, n, v) => Ev::RecordTupleValueBegin(t, l, n) }
}
pub open spec fn item_end(i: Item) -> Ev {
    match i { Item::Seq(v) => Ev::SeqValueEnd, Item::Map(_, v) => Ev::MapValueEnd, Item::Record(t, l, v) => Ev::RecordValueEnd(t, l),
        Item::Tuple(t, n, v) => Ev::TupleValueEnd(t, n), Item::RecordTuple(t, l, n, v) => Ev::RecordTupleValueEnd(t, l, n) }
}
pub open spec fn item_key(i: Item) -> Seq<Ev> { if i is Map { key_evs(i->Map_0) } else { Seq::empty() } }
pub open spec fn item_evs(i: Item) -> Seq<Ev> { item_key(i) + (seq![item_begin(i)] + content(i) + seq![item_end(i)]) }
// The documented key of a value of a child of each kind: its tag, its label and its index.
pub open spec fn item_tag(i: Item) -> Option<Tag> { match i { Item::Record(t, _, _) => t, Item::Tuple(t, _, _) => t, Item::RecordTuple(t, _, _, _) => t, _ => None } }
pub open spec fn item_index(init: int, cur: int, i: Item) -> IndexV {
    match i { Item::Tuple(_, n, _) => index_v(init, cur, Some(n)), Item::RecordTuple(_, _, n, _) => index_v(init, cur, Some(n)), _ => IndexV { num: cur, tag: offset_tag() } }
}
pub open spec fn item_label(init: int, cur: int, i: Item) -> LabelV {
    match i {
        Item::Record(_, l, _) => l,
        Item::RecordTuple(_, l, _, _) => l,
        Item::Map(k, _) => LabelV { text: txts(k), tag: None },
        _ => LabelV { text: dec(item_index(init, cur, i).num), tag: None },
    }
}
pub open spec fn txts(evs: Seq<Ev>) -> Seq<char>
    decreases evs.len(),
{ if evs.len() == 0 { Seq::empty() } else { txts(evs.drop_last()) + txt(evs.last()) } }
// What each kind of parent gets for one of the child's values: its key, all of it, its end.
pub open spec fn on_parent(k: Kind, init: int, cur: int, i: Item) -> Seq<Ev> {
    let (tag, label, index) = (item_tag(i), item_label(init, cur, i), item_index(init, cur, i));
    match k {
        Kind::Map => (if i is Map { item_key(i) } else { key_evs(text_evs(label.text)) }) + (seq![Ev::MapValueBegin] + content(i) + seq![Ev::MapValueEnd]),
        Kind::Seq => seq![Ev::SeqValueBegin] + content(i) + seq![Ev::SeqValueEnd],
        Kind::Record => seq![Ev::RecordValueBegin(tag, label)] + content(i) + seq![Ev::RecordValueEnd(tag, label)],
        Kind::Tuple => seq![Ev::TupleValueBegin(tag, index)] + content(i) + seq![Ev::TupleValueEnd(tag, index)],
        Kind::RecordTuple => seq![Ev::RecordTupleValueBegin(tag, label, index)] + content(i) + seq![Ev::RecordTupleValueEnd(tag, label, index)],
    }
}
pub open spec fn next_cur(init: int, cur: int, i: Item) -> int {
    match i { Item::Tuple(_, n, _) => cur_v(init, cur, Some(n)), Item::RecordTuple(_, _, n, _) => cur_v(init, cur, Some(n)), _ => cur + 1 }
}
pub open spec fn item_index_in(i: Item) -> Option<IndexV> { match i { Item::Tuple(_, n, _) => Some(n), Item::RecordTuple(_, _, n, _) => Some(n), _ => None } }
pub open spec fn item_ok(en: bool, init: int, cur: int, i: Item) -> bool {
    &&& one_value(en, content(i))
    &&& i is Map ==> one_value(en, i->Map_0)
    &&& index_fits(init, cur, item_index_in(i))
    &&& item_evs(i).len() < usize::MAX - 2
}
// Between two values of the child: nothing is open, no key waits.
pub open spec fn ready(x: X) -> bool {
    &&& x.depth == 1 && !x.key && sound(x.fv)
    &&& x.fv.k is Map ==> !x.fv.s.seen
    &&& x.fv.k is Record || x.fv.k is RecordTuple ==> x.fv.l.kind is Label && x.fv.l.text.len() == 0
    &&& x.fv.k is Seq || x.fv.k is Tuple ==> x.fv.l.kind is Nothing
}
pub proof fn label_text(v: V, evs: Seq<Ev>)
    requires v.kind is Label,
    ensures after_all(v, evs) == (V { text: v.text + txts(evs), ..v }),
    decreases evs.len(),
{
    text_facts();
    if evs.len() > 0 { label_text(v, evs.drop_last()); assert(v.text + txts(evs) =~= v.text + txts(evs.drop_last()) + txt(evs.last())); }
    else { assert(v.text + txts(evs) =~= v.text); }
}
pub proof fn txts_key(k: Seq<Ev>)
    ensures txts(key_evs(k)) =~= txts(k),
{
    let a = seq![Ev::MapKeyBegin];
    assert(a.drop_last() =~= Seq::<Ev>::empty());
    assert(txts(a) =~= Seq::<char>::empty()) by { reveal_with_fuel(txts, 2); }
    txts_app(a, k);
    assert(key_evs(k).drop_last() =~= a + k);
    assert(txts(key_evs(k)) =~= txts(a + k) + Seq::<char>::empty());
}
pub proof fn txts_app(a: Seq<Ev>, b: Seq<Ev>)
    ensures txts(a + b) =~= txts(a) + txts(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); txts_app(a, b.drop_last()); }
}
""")

o.append(r"""
pub open spec fn keyed(x: X, i: Item) -> X {
    if i is Map { X { fv: put_l(x.fv, after_all(get_l(x.fv), item_key(i))), ..x } } else { x }
}
#[verifier::spinoff_prover]
pub proof fn key_part(x: X, i: Item)
    requires ready(x), item_ok(x.en, x.init, x.cur, i),
    ensures run(x, item_key(i)) == keyed(x, i), run_fits(x, item_key(i)),
{
    hide(act); hide(fits);
    if i is Map {
        let k = i->Map_0;
        let (a, b) = (seq![Ev::MapKeyBegin], seq![Ev::MapKeyEnd]);
        assert(item_key(i) =~= (a + k) + b);
        run_app(x, a + k, b); run_app(x, a, k);
        run_one(x, Ev::MapKeyBegin); act_key_mark(x, Ev::MapKeyBegin);
        let x1 = run(x, a);
        assert(item_evs(i).len() == item_key(i).len() + content(i).len() + 2);
        assert(item_key(i).len() == k.len() + 2);
        inside_key(x1, k);
        let x2 = run(x1, k);
        assert(x2.depth == 1 && x2.key);
        run_one(x2, Ev::MapKeyEnd); act_key_mark(x2, Ev::MapKeyEnd);
        after_app(get_l(x.fv), a + k, b); after_app(get_l(x.fv), a, k);
        after_one(get_l(x.fv), Ev::MapKeyBegin);
        after_one(after_all(get_l(x.fv), a + k), Ev::MapKeyEnd);
    } else { run_none(x, item_key(i)); }
}
// What happens to the label stream when a value begins.
pub open spec fn emptied(x: X, i: Item) -> X {
    if i is Map { X { kb: taken(get_l(x.fv)), fv: put_l(x.fv, left(get_l(x.fv))), ..x } } else { x }
}
pub open spec fn opened(x: X, i: Item) -> X {
    let y = emptied(x, i);
    open_v(y, item_tag(i), flat_label(y, i), item_index_in(i))
}
pub open spec fn flat_label(y: X, i: Item) -> LabelV {
    match i { Item::Record(_, l, _) => l, Item::RecordTuple(_, l, _, _) => l, Item::Map(_, _) => LabelV { text: y.kb, tag: None }, _ => ilabel(y, item_index_in(i), None) }
}
#[verifier::spinoff_prover]
pub proof fn value_part(x: X, i: Item)
    requires x.depth == 1, !x.key, item_ok(x.en, x.init, x.cur, i),
    ensures ({
        let y = opened(x, i);
        let z = X { fv: put_s(y.fv, after_all(y.fv.s, content(i))), ..y };
        let evs = seq![item_begin(i)] + content(i) + seq![item_end(i)];
        run(x, evs) == close_v(z, item_tag(i), flat_label(z, i), item_index_in(i)) && run_fits(x, evs)
    }),
{
    hide(act); hide(fits);
    let (a, c, b) = (seq![item_begin(i)], content(i), seq![item_end(i)]);
    run_app(x, a + c, b); run_app(x, a, c);
    run_one(x, item_begin(i)); act_item_begin(x, i);
    let y = opened(x, i);
    assert(act(x, item_begin(i)) == y);
    assert(item_evs(i).len() == item_key(i).len() + content(i).len() + 2);
    inside_value(y, c);
    let z = X { fv: put_s(y.fv, after_all(y.fv.s, content(i))), ..y };
    assert(run(y, c) == z);
    run_one(z, item_end(i)); act_item_end(z, i);
}
pub proof fn act_root_begin(x: X, b: Ev)
    requires x.depth == 0, !x.key, b is MapBegin || b is SeqBegin || b is RecordBegin || b is TupleBegin || b is RecordTupleBegin, index_fits(x.init, x.cur, None),
    ensures act(x, b) == (X { depth: 1, ..x }), fits(x, b),
{ }
pub proof fn act_root_end(x: X, e: Ev)
    requires x.depth == 1, !x.key, e is MapEnd || e is SeqEnd || e is RecordEnd || e is TupleEnd || e is RecordTupleEnd, index_fits(x.init, x.cur, None),
    ensures act(x, e) == (X { depth: 0, ..x }), fits(x, e),
{ }
pub proof fn act_enum(x: X, e: Ev)
    requires x.depth == 0, e is EnumBegin || e is EnumEnd,
    ensures act(x, e) == (X { en: e is EnumBegin, ..x }), fits(x, e),
{ }
pub proof fn act_variant_begin(x: X, t: Option<Tag>, label: Option<LabelV>, i: Option<IndexV>)
    requires x.depth == 0, x.en, !x.key, index_fits(x.init, x.cur, i),
    ensures act(x, Ev::TaggedBegin(t, label, i)) == open_v(X { depth: 1, ..x }, None, ilabel(x, i, label), i), fits(x, Ev::TaggedBegin(t, label, i)),
{ }
pub proof fn act_variant_end(x: X, t: Option<Tag>, label: Option<LabelV>, i: Option<IndexV>)
    requires x.depth == 1, x.en, !x.key, index_fits(x.init, x.cur, i),
    ensures act(x, Ev::TaggedEnd(t, label, i)) == (X { depth: 0, ..close_v(x, None, ilabel(x, i, label), i) }), fits(x, Ev::TaggedEnd(t, label, i)),
{ }
pub proof fn act_key_mark(x: X, e: Ev)
    requires x.depth == 1, e is MapKeyBegin || e is MapKeyEnd, index_fits(x.init, x.cur, None),
    ensures act(x, e) == (X { key: e is MapKeyBegin, ..to_key(x, e) }), fits(x, e),
{ }
pub proof fn act_item_begin(x: X, i: Item)
    requires x.depth == 1, !x.key, index_fits(x.init, x.cur, item_index_in(i)),
    ensures act(x, item_begin(i)) == opened(x, i), fits(x, item_begin(i)),
{ }
pub proof fn act_item_end(x: X, i: Item)
    requires x.depth == 1, !x.key, index_fits(x.init, x.cur, item_index_in(i)),
    ensures act(x, item_end(i)) == close_v(x, item_tag(i), flat_label(x, i), item_index_in(i)), fits(x, item_end(i)),
{ }
// One value of the child: the parent gets it once, under its documented key, and is then ready
// for the next.
#[verifier::spinoff_prover]
pub proof fn one_item(x: X, i: Item)
    requires ready(x), item_ok(x.en, x.init, x.cur, i),
    ensures ({
        let y = run(x, item_evs(i));
        &&& run_fits(x, item_evs(i))
        &&& y.fv.s == after_all(x.fv.s, on_parent(x.fv.k, x.init, x.cur, i))
        &&& y.cur == next_cur(x.init, x.cur, i)
        &&& y.init == x.init && y.en == x.en && y.fv.k == x.fv.k && ready(y)
    }),
{
    let k = x.fv.k;
    let c = content(i);
    run_app(x, item_key(i), seq![item_begin(i)] + c + seq![item_end(i)]);
    key_part(x, i);
    let x1 = keyed(x, i);
    value_part(x1, i);
    let y = opened(x1, i);
    let (label, index) = (item_label(x.init, x.cur, i), item_index(x.init, x.cur, i));
    assert(index == index_v(x.init, x.cur, item_index_in(i)));
    after_kept(get_l(x.fv), item_key(i));
    if i is Map {
        if k is Record || k is RecordTuple {
            label_text(x.fv.l, item_key(i));
            txts_key(i->Map_0);
            assert(Seq::<char>::empty() + txts(i->Map_0) =~= txts(i->Map_0));
            assert(x.fv.l.text =~= Seq::<char>::empty());
            assert(taken(x1.fv.l) =~= txts(i->Map_0));
        }
        if k is Map {
            let (a, kk, b) = (seq![Ev::MapKeyBegin], i->Map_0, seq![Ev::MapKeyEnd]);
            after_app(x.fv.s, a + kk, b);
            after_kept(x.fv.s, a + kk);
            after_one(after_all(x.fv.s, a + kk), Ev::MapKeyEnd);
            assert(x1.fv.s.seen);
        }
    }
    assert(!(k is Map) ==> x1.fv.s == x.fv.s);
    let bg = match k {
        Kind::Map => Ev::MapValueBegin,
        Kind::Seq => Ev::SeqValueBegin,
        Kind::Record => Ev::RecordValueBegin(item_tag(i), label),
        Kind::Tuple => Ev::TupleValueBegin(item_tag(i), index),
        Kind::RecordTuple => Ev::RecordTupleValueBegin(item_tag(i), label, index),
    };
    let en = match k {
        Kind::Map => Ev::MapValueEnd,
        Kind::Seq => Ev::SeqValueEnd,
        Kind::Record => Ev::RecordValueEnd(item_tag(i), label),
        Kind::Tuple => Ev::TupleValueEnd(item_tag(i), index),
        Kind::RecordTuple => Ev::RecordTupleValueEnd(item_tag(i), label, index),
    };
    let pre = if k is Map { if i is Map { item_key(i) } else { key_evs(text_evs(label.text)) } } else { Seq::<Ev>::empty() };
    assert(on_parent(k, x.init, x.cur, i) =~= pre + (seq![bg] + c + seq![en]));
    let s1 = after_all(x.fv.s, pre);
    after_kept(x.fv.s, pre);
    if k is Map && !(i is Map) {
        let (a, t, b) = (seq![Ev::MapKeyBegin], text_evs(label.text), seq![Ev::MapKeyEnd]);
        after_app(x.fv.s, a + t, b); after_app(x.fv.s, a, t);
        after_one(x.fv.s, Ev::MapKeyBegin);
        after_one(after_all(x.fv.s, a + t), Ev::MapKeyEnd);
    }
    assert(y.fv.s == after(s1, bg));
    let s2 = after(s1, bg);
    let s3 = after_all(s2, c);
    after_kept(s2, c);
    after_app(x.fv.s, pre, seq![bg] + c + seq![en]);
    after_app(s1, seq![bg] + c, seq![en]);
    after_app(s1, seq![bg], c);
    after_one(s1, bg);
    after_one(s3, en);
    if k is Map { seen_after(s2, V { kind: VK::Parent, ..nothing_v() }, c); }
}

// All of a child's values, in order.
pub open spec fn items_evs(items: Seq<Item>) -> Seq<Ev>
    decreases items.len(),
{ if items.len() == 0 { Seq::empty() } else { items_evs(items.drop_last()) + item_evs(items.last()) } }
pub open spec fn items_cur(init: int, cur: int, items: Seq<Item>) -> int
    decreases items.len(),
{ if items.len() == 0 { cur } else { next_cur(init, items_cur(init, cur, items.drop_last()), items.last()) } }
pub open spec fn items_on_parent(k: Kind, init: int, cur: int, items: Seq<Item>) -> Seq<Ev>
    decreases items.len(),
{
    if items.len() == 0 { Seq::empty() } else {
        items_on_parent(k, init, cur, items.drop_last()) + on_parent(k, init, items_cur(init, cur, items.drop_last()), items.last())
    }
}
pub open spec fn items_ok(en: bool, init: int, cur: int, items: Seq<Item>) -> bool
    decreases items.len(),
{ items.len() == 0 || (items_ok(en, init, cur, items.drop_last()) && item_ok(en, init, items_cur(init, cur, items.drop_last()), items.last())) }
pub open spec fn arrived(x: X, y: X, items: Seq<Item>) -> bool {
    &&& y.fv.s == after_all(x.fv.s, items_on_parent(x.fv.k, x.init, x.cur, items))
    &&& y.cur == items_cur(x.init, x.cur, items)
    &&& y.init == x.init && y.en == x.en && y.fv.k == x.fv.k
}
#[verifier::spinoff_prover]
pub proof fn all_items(x: X, items: Seq<Item>)
    requires ready(x), items_ok(x.en, x.init, x.cur, items),
    ensures run_fits(x, items_evs(items)), arrived(x, run(x, items_evs(items)), items), ready(run(x, items_evs(items))),
    decreases items.len(),
{
    if items.len() == 0 { run_none(x, items_evs(items)); }
    else {
        let p = items.drop_last();
        all_items(x, p);
        let y = run(x, items_evs(p));
        one_item(y, items.last());
        run_app(x, items_evs(p), item_evs(items.last()));
        after_app(x.fv.s, items_on_parent(x.fv.k, x.init, x.cur, p), on_parent(x.fv.k, x.init, y.cur, items.last()));
    }
}
// A child that is a map, a sequence, a record, a tuple or a record tuple.
pub open spec fn container(b: Ev, e: Ev) -> bool {
    match b {
        Ev::MapBegin(_) => e is MapEnd, Ev::SeqBegin(_) => e is SeqEnd, Ev::RecordBegin(_, _, _, _) => e is RecordEnd,
        Ev::TupleBegin(_, _, _, _) => e is TupleEnd, Ev::RecordTupleBegin(_, _, _, _) => e is RecordTupleEnd, _ => false,
    }
}
pub open spec fn child_evs(b: Ev, items: Seq<Item>, e: Ev) -> Seq<Ev> { seq![b] + items_evs(items) + seq![e] }
pub open spec fn fresh(x: X) -> bool { x.depth == 0 && ready(X { depth: 1, ..x }) && fits_isize(x.init) && fits_isize(x.cur) }
#[verifier::spinoff_prover]
pub proof fn whole_child(x: X, b: Ev, items: Seq<Item>, e: Ev)
    requires fresh(x), container(b, e), items_ok(x.en, x.init, x.cur, items), fits_isize(x.cur + 1), fits_isize(items_cur(x.init, x.cur, items) + 1),
    ensures run_fits(x, child_evs(b, items, e)), arrived(x, run(x, child_evs(b, items, e)), items),
        run(x, child_evs(b, items, e)).depth == 0, ready(X { depth: 1, ..run(x, child_evs(b, items, e)) }),
{
    hide(act); hide(fits);
    run_app(x, seq![b] + items_evs(items), seq![e]); run_app(x, seq![b], items_evs(items));
    run_one(x, b); act_root_begin(x, b);
    let x1 = X { depth: 1, ..x };
    assert(act(x, b) == x1);
    all_items(x1, items);
    let y = run(x1, items_evs(items));
    run_one(y, e); act_root_end(y, e);
    assert(act(y, e) == (X { depth: 0, ..y }));
}
// Wrappers around the child (an option, a tag) have nothing to put on the parent.
pub open spec fn wrapper(b: Ev, e: Ev) -> bool { b is TaggedBegin && e is TaggedEnd }
#[verifier::spinoff_prover]
pub proof fn wrapped(x: X, b: Ev, evs: Seq<Ev>, e: Ev)
    requires x.depth == 0, wrapper(b, e), !x.en, !run(x, evs).en, run(x, evs).depth == 0, run_fits(x, evs),
    ensures run(x, seq![b] + evs + seq![e]) == run(x, evs), run_fits(x, seq![b] + evs + seq![e]),
{
    run_app(x, seq![b] + evs, seq![e]); run_app(x, seq![b], evs);
    run_one(x, b); run_one(run(x, evs), e);
}
// An enum: a variant that is a container is flattened like the container itself ...
#[verifier::spinoff_prover]
pub proof fn enum_of_child(x: X, eb: Ev, b: Ev, items: Seq<Item>, e: Ev, ee: Ev)
    requires fresh(x), !x.en, eb is EnumBegin, ee is EnumEnd, container(b, e), items_ok(true, x.init, x.cur, items), fits_isize(x.cur + 1), fits_isize(items_cur(x.init, x.cur, items) + 1),
    ensures ({
        let evs = seq![eb] + child_evs(b, items, e) + seq![ee];
        run_fits(x, evs) && arrived(x, run(x, evs), items) && run(x, evs).depth == 0
    }),
{
    hide(act); hide(fits);
    let m = child_evs(b, items, e);
    run_app(x, seq![eb] + m, seq![ee]); run_app(x, seq![eb], m);
    run_one(x, eb); act_enum(x, eb);
    let x1 = X { en: true, ..x };
    whole_child(x1, b, items, e);
    run_one(run(x1, m), ee); act_enum(run(x1, m), ee);
}
// ... and a tagged variant is one value, whose key is the variant's label, or else its index.
pub open spec fn variant_on_parent(k: Kind, init: int, cur: int, label: Option<LabelV>, i: Option<IndexV>, c: Seq<Ev>) -> Seq<Ev> {
    let index = index_v(init, cur, i);
    let l = index_label_v(index, label);
    match k {
        Kind::Map => key_evs(text_evs(l.text)) + (seq![Ev::MapValueBegin] + c + seq![Ev::MapValueEnd]),
        Kind::Seq => seq![Ev::SeqValueBegin] + c + seq![Ev::SeqValueEnd],
        Kind::Record => seq![Ev::RecordValueBegin(None, l)] + c + seq![Ev::RecordValueEnd(None, l)],
        Kind::Tuple => seq![Ev::TupleValueBegin(None, index)] + c + seq![Ev::TupleValueEnd(None, index)],
        Kind::RecordTuple => seq![Ev::RecordTupleValueBegin(None, l, index)] + c + seq![Ev::RecordTupleValueEnd(None, l, index)],
    }
}
#[verifier::spinoff_prover]
pub proof fn tagged_variant(x: X, eb: Ev, t: Option<Tag>, label: Option<LabelV>, i: Option<IndexV>, c: Seq<Ev>, ee: Ev)
    requires fresh(x), !x.en, eb is EnumBegin, ee is EnumEnd, one_value(true, c), c.len() < usize::MAX - 8, index_fits(x.init, x.cur, i),
    ensures ({
        let evs = seq![eb] + (seq![Ev::TaggedBegin(t, label, i)] + c + seq![Ev::TaggedEnd(t, label, i)]) + seq![ee];
        let y = run(x, evs);
        &&& run_fits(x, evs)
        &&& y.fv.s == after_all(x.fv.s, variant_on_parent(x.fv.k, x.init, x.cur, label, i, c))
        &&& y.cur == cur_v(x.init, x.cur, i) && y.init == x.init && y.depth == 0
    }),
{
    hide(act); hide(fits);
    let (tb, te) = (Ev::TaggedBegin(t, label, i), Ev::TaggedEnd(t, label, i));
    let m = seq![tb] + c + seq![te];
    run_app(x, seq![eb] + m, seq![ee]); run_app(x, seq![eb], m);
    run_one(x, eb); act_enum(x, eb);
    let x1 = X { en: true, ..x };
    assert(act(x, eb) == x1);
    run_app(x1, seq![tb] + c, seq![te]); run_app(x1, seq![tb], c);
    run_one(x1, tb); act_variant_begin(x1, t, label, i);
    let (index, k) = (index_v(x.init, x.cur, i), x.fv.k);
    let l = index_label_v(index, label);
    let y = open_v(X { depth: 1, ..x1 }, None, l, i);
    assert(act(x1, tb) == y);
    inside_value(y, c);
    let z = X { fv: put_s(y.fv, after_all(y.fv.s, c)), ..y };
    assert(run(y, c) == z);
    run_one(z, te); act_variant_end(z, t, label, i);
    let w = X { depth: 0, ..close_v(z, None, l, i) };
    assert(act(z, te) == w);
    run_one(w, ee); act_enum(w, ee);
    let bg = match k {
        Kind::Map => Ev::MapValueBegin,
        Kind::Seq => Ev::SeqValueBegin,
        Kind::Record => Ev::RecordValueBegin(None, l),
        Kind::Tuple => Ev::TupleValueBegin(None, index),
        Kind::RecordTuple => Ev::RecordTupleValueBegin(None, l, index),
    };
    let en = match k {
        Kind::Map => Ev::MapValueEnd,
        Kind::Seq => Ev::SeqValueEnd,
        Kind::Record => Ev::RecordValueEnd(None, l),
        Kind::Tuple => Ev::TupleValueEnd(None, index),
        Kind::RecordTuple => Ev::RecordTupleValueEnd(None, l, index),
    };
    let pre = if k is Map { key_evs(text_evs(l.text)) } else { Seq::<Ev>::empty() };
    assert(variant_on_parent(k, x.init, x.cur, label, i, c) =~= pre + (seq![bg] + c + seq![en]));
    let s1 = after_all(x.fv.s, pre);
    after_kept(x.fv.s, pre);
    if k is Map {
        let (a, t, b) = (seq![Ev::MapKeyBegin], text_evs(l.text), seq![Ev::MapKeyEnd]);
        after_app(x.fv.s, a + t, b); after_app(x.fv.s, a, t);
        after_one(x.fv.s, Ev::MapKeyBegin);
        after_one(after_all(x.fv.s, a + t), Ev::MapKeyEnd);
    }
    let s2 = after(s1, bg);
    let s3 = after_all(s2, c);
    after_kept(s2, c);
    after_app(x.fv.s, pre, seq![bg] + c + seq![en]);
    after_app(s1, seq![bg] + c, seq![en]);
    after_app(s1, seq![bg], c);
    after_one(s1, bg);
    after_one(s3, en);
}
pub proof fn starts_fresh(k: Kind, s: V, offset: int)
    requires s.kind is Parent, !s.broken, fits_isize(offset),
    ensures fresh(start(k, s, offset)), !start(k, s, offset).en, start(k, s, offset).fv.k == k,
{ }
// A value with nothing to flatten (a scalar, a missing value) puts nothing on the parent.
pub proof fn nothing_to_flatten(x: X, e: Ev)
    requires x.depth == 0, !(e is EnumBegin), !(e is EnumEnd), !begins(x.en, e), !ends(x.en, e), !is_mark(e),
    ensures act(x, e) == x, fits(x, e),
{ }
""")
o.append("} // verus!\nfn main() {}\n")
open(os.path.join(SPECS, "flatten.rs"), "w").write("".join(o))
