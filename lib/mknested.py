"""Writes specs/nested_flat.rs."""
import os, re
SC = "i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64".split()
out = []
LOOSE = r"""//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
"""
def w(t):
    # closures that make an error
    out.append(re.sub(r"(//@fn sval_nested \|.*\n)", lambda m: m.group(1) + LOOSE, t))
F = "<'sval, S: Stream<'sval>>"
IMPL = "flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}"
INH = "flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}"
TLI = "Option<Tag>, Option<LabelV>, Option<IndexV>"
w(r'''// C18: flat streams made recursive.
//
// A recursive stream is seen through the calls made on it: its result carries the calls that made
// it (`made`), and a stream for a container the calls so far.  A part that is given to one of those
// calls is seen through its events, with text and binary content whole (`norm`).  `nxt` says what
// each event of a flat stream does; the real methods are proved to do exactly that.
use vstd::prelude::*;
verus! {
//@include data.rs
//@include events.rs
//@include got.rs
pub open spec fn text_evs(s: Seq<char>) -> Seq<Ev> { seq![Ev::TextBegin(Some(vstd::utf8::encode_utf8(s).len() as usize)), Ev::TextFragment(s, true), Ev::TextEnd] }
pub open spec fn computed_text_evs(s: Seq<char>) -> Seq<Ev> { lend(text_evs(s), false) }
pub open spec fn binary_evs(b: Seq<u8>) -> Seq<Ev> { seq![Ev::BinaryBegin(Some(b.len() as usize)), Ev::BinaryFragment(b, true), Ev::BinaryEnd] }
pub open spec fn start() -> Got { Got { evs: seq![], open: seq![], text: None, binary: None } }
#[verifier::opaque] pub open spec fn norm(e: Seq<Ev>) -> Seq<Ev> { run(start(), e).evs }
// text is whole in what a buffer keeps, so that it is its own normal form
#[verifier::opaque] pub open spec fn normal(g: Got) -> bool { run(start(), g.evs) == (Got { evs: g.evs, open: g.open, text: None, binary: None }) }
pub broadcast proof fn feed_normal(g: Got, e: Ev)
    requires normal(g), fits(g, e),
    ensures normal(#[trigger] feed(g, e)),
{
    reveal(normal);
    let r = Got { evs: g.evs, open: g.open, text: None, binary: None };
    match e {
        Ev::TextBegin(_) | Ev::TextFragment(..) | Ev::BinaryBegin(_) | Ev::BinaryFragment(..) => {}
        Ev::TextEnd => { run3(r, g.evs, computed_text_evs(g.text.unwrap())); let x = computed_text_evs(g.text.unwrap()); assert(Seq::<char>::empty() + g.text.unwrap() =~= g.text.unwrap()); assert(x[1] == Ev::TextFragment(g.text.unwrap(), false)); assert(x[2] == Ev::TextEnd); assert(x[0] is TextBegin); }
        Ev::BinaryEnd => { let x = lend(binary_evs(g.binary.unwrap()), false); run3(r, g.evs, x); assert(Seq::<u8>::empty() + g.binary.unwrap() =~= g.binary.unwrap()); assert(x[1] == Ev::BinaryFragment(g.binary.unwrap(), false)); assert(x[2] == Ev::BinaryEnd); assert(x[0] is BinaryBegin); }
        _ => { assert(g.evs.push(e).drop_last() =~= g.evs); assert(g.evs.push(e).last() == e); }
    }
}
pub proof fn run3(r: Got, s: Seq<Ev>, x: Seq<Ev>)
    requires x.len() == 3, run(start(), s) == r,
    ensures run(start(), s + x) == feed(feed(feed(r, x[0]), x[1]), x[2]),
{
    reveal_with_fuel(run, 4);
    assert((s + x).drop_last().drop_last().drop_last() =~= s);
    assert((s + x).last() == x[2]); assert((s + x).drop_last().last() == x[1]); assert((s + x).drop_last().drop_last().last() == x[0]);
}
pub broadcast proof fn run_normal(g: Got, e: Seq<Ev>)
    requires normal(g), all_fit(g, e),
    ensures normal(#[trigger] run(g, e)),
    decreases e.len(),
{ if e.len() > 0 { run_normal(g, e.drop_last()); feed_normal(run(g, e.drop_last()), e.last()); } }
pub proof fn run_lend(g: Got, e: Seq<Ev>)
    ensures run(g, lend(e, false)) == run(g, e), all_fit(g, lend(e, false)) == all_fit(g, e),
    decreases e.len(),
{
    if e.len() > 0 {
        run_lend(g, e.drop_last());
        assert(lend(e, false).drop_last() =~= lend(e.drop_last(), false));
    }
}
pub broadcast proof fn norm_lend(g: Got, e: Seq<Ev>)
    ensures #[trigger] run(g, lend(e, false)) == run(g, e), all_fit(g, lend(e, false)) == all_fit(g, e),
{ run_lend(g, e); }
pub broadcast proof fn norm_lend2(e: Seq<Ev>)
    ensures norm(e) == norm(#[trigger] lend(e, false)),
{ reveal(norm); run_lend(start(), e); }
pub broadcast proof fn norm_of(g: Got)
    requires #[trigger] normal(g),
    ensures norm(g.evs) == g.evs,
{ reveal(norm); reveal(normal); }
pub open spec fn leaf(e: Ev) -> bool {
    match e { Ev::TextBegin(_) | Ev::TextFragment(..) | Ev::TextEnd | Ev::BinaryBegin(_) | Ev::BinaryFragment(..) | Ev::BinaryEnd => false, _ => true }
}
pub broadcast proof fn norm_leaf(e: Ev)
    requires leaf(e),
    ensures #[trigger] norm(seq![e]) == seq![e],
{ reveal(norm); reveal_with_fuel(run, 2); assert(seq![e].drop_last() =~= Seq::<Ev>::empty()); assert(Seq::<Ev>::empty() + seq![e] =~= seq![e]); }
pub broadcast proof fn norm_text(s: Seq<char>)
    ensures #[trigger] norm(text_evs(s)) == computed_text_evs(s),
{ reveal(norm); assert(Seq::<Ev>::empty() + text_evs(s) =~= text_evs(s)); run3(start(), seq![], text_evs(s)); assert(Seq::<char>::empty() + s =~= s); assert(Seq::<Ev>::empty() + computed_text_evs(s) =~= computed_text_evs(s)); }
pub broadcast proof fn norm_binary(s: Seq<u8>)
    ensures #[trigger] norm(binary_evs(s)) == lend(binary_evs(s), false),
{ reveal(norm); assert(Seq::<Ev>::empty() + binary_evs(s) =~= binary_evs(s)); run3(start(), seq![], binary_evs(s)); assert(Seq::<u8>::empty() + s =~= s); assert(Seq::<Ev>::empty() + lend(binary_evs(s), false) =~= lend(binary_evs(s), false)); }
pub broadcast group norms { norm_leaf, norm_text, norm_binary, norm_lend2, norm_of, feed_normal, run_normal, run_lend_b, fit_lend_b, normal_start }
pub broadcast proof fn normal_start()
    ensures #[trigger] normal(start()),
{ reveal(normal); assert(start().evs =~= Seq::<Ev>::empty()); }
pub broadcast proof fn run_lend_b(g: Got, e: Seq<Ev>)
    ensures #[trigger] run(g, lend(e, false)) == run(g, e),
{ run_lend(g, e); }
pub broadcast proof fn fit_lend_b(g: Got, e: Seq<Ev>)
    ensures #[trigger] all_fit(g, lend(e, false)) == all_fit(g, e),
{ run_lend(g, e); }
pub open spec fn olo(o: Option<Label>) -> Option<LabelV> { match o { Some(t) => Some(t@), None => None } }
pub open spec fn oio(o: Option<Index>) -> Option<IndexV> { match o { Some(t) => Some(t@), None => None } }

// ---- the calls of a recursive stream
pub ghost enum NCall {
    Null, Bool(bool), ''' + ", ".join(f"{t.upper()}({t})" for t in SC) + r''', Text(Seq<char>), Binary(Seq<u8>),
    Tag(TLI), Tagged(TLI, Seq<Ev>),
    Seq(Option<usize>), Element(Seq<Ev>), Map(Option<usize>), Key(Seq<Ev>), Value(Seq<Ev>),
    Tuple(TLI, Option<usize>), TField(Option<Tag>, IndexV, Seq<Ev>), Record(TLI, Option<usize>), RField(Option<Tag>, LabelV, Seq<Ev>),
    Enum(TLI), Nested(TLI), Empty, End,
}
pub uninterp spec fn made<T>(o: T) -> Seq<NCall>;
'''.replace("TLI", TLI))
w(r'''
// ---- what a flat stream turns its events into
// `Any`: nothing yet; `Seq`, `Map` .. the calls so far; `Done`: the calls that made the result
pub ghost enum FS {
    Any, Seq(Seq<NCall>), Map(Seq<NCall>, bool), Tagged(TLI), Tuple(Seq<NCall>, Option<(Option<Tag>, IndexV)>), Record(Seq<NCall>, Option<(Option<Tag>, LabelV)>),
    Enum(Seq<NCall>, bool), VTagged(Seq<NCall>, TLI), Done(Seq<NCall>), Failed, Gone,
}
pub ghost enum FB { None, Text(Seq<char>), Binary(Seq<u8>), Value(Got), Wild }
pub ghost struct Fl { pub b: FB, pub s: FS }
// one whole part, in the state `s`
pub open spec fn leafv(s: FS, any: Seq<NCall>, p: Seq<Ev>) -> Option<FS> {
    match s {
        FS::Any => Some(FS::Done(any)),
        FS::Tagged(t, l, i) => Some(FS::Done(seq![NCall::Tagged(t, l, i, p)])),
        FS::Seq(c) => Some(FS::Seq(c.push(NCall::Element(p)))),
        FS::Map(c, k) => Some(FS::Map(c.push(if k { NCall::Key(p) } else { NCall::Value(p) }), k)),
        FS::Tuple(c, Some((t, i))) => Some(FS::Tuple(c.push(NCall::TField(t, i, p)), None)),
        FS::Record(c, Some((t, l))) => Some(FS::Record(c.push(NCall::RField(t, l, p)), None)),
        FS::VTagged(c, t, l, i) => Some(FS::Done(c.push(NCall::Tagged(t, l, i, p)))),
        _ => None,
    }
}
pub open spec fn leaff(fl: Fl, any: Seq<NCall>, p: Seq<Ev>) -> Option<Fl> {
    match leafv(fl.s, any, p) { Some(s) => Some(Fl { b: FB::None, s }), None => None }
}
pub open spec fn on(s: FS) -> Option<Fl> { Some(Fl { b: FB::None, s }) }
// record tuples arrive as records
pub open spec fn degr(e: Ev) -> Ev {
    match e {
        Ev::RecordTupleBegin(t, l, i, n) => Ev::RecordBegin(t, l, i, n),
        Ev::RecordTupleValueBegin(t, l, i) => Ev::RecordValueBegin(t, l),
        Ev::RecordTupleValueEnd(t, l, i) => Ev::RecordValueEnd(t, l),
        Ev::RecordTupleEnd(t, l, i) => Ev::RecordEnd(t, l, i),
        _ => e,
    }
}
pub open spec fn ends(e: Ev) -> bool {
    match e { Ev::SeqEnd | Ev::MapEnd | Ev::EnumEnd(..) | Ev::TaggedEnd(..) | Ev::RecordEnd(..) | Ev::TupleEnd(..) => true, _ => false }
}
pub open spec fn nxt(fl: Fl, e0: Ev) -> Option<Fl> {
    let e = degr(e0);
    if e is TagHint { Some(fl) } else {
    match fl.b {
        FB::Value(g) => if ends(e) && feed(g, e).open.len() == 0 && idle(feed(g, e)) { leaff(fl, seq![], feed(g, e).evs) } else { Some(Fl { b: FB::Value(feed(g, e)), s: fl.s }) },
        FB::Text(c) => match e {
            Ev::TextFragment(s, _) => Some(Fl { b: FB::Text(c + s), s: fl.s }),
            Ev::TextEnd => leaff(fl, seq![NCall::Text(c)], computed_text_evs(c)),
            _ => None,
        },
        FB::Binary(c) => match e {
            Ev::BinaryFragment(s, _) => Some(Fl { b: FB::Binary(c + s), s: fl.s }),
            Ev::BinaryEnd => leaff(fl, seq![NCall::Binary(c)], lend(binary_evs(c), false)),
            _ => None,
        },
        FB::Wild => None,
        FB::None => match e {
            Ev::Null => leaff(fl, seq![NCall::Null], seq![e]),
            Ev::Bool(v) => leaff(fl, seq![NCall::Bool(v)], seq![e]),
''' .replace("TLI", TLI) + "".join(f"            Ev::{t.upper()}(v) => leaff(fl, seq![NCall::{t.upper()}(v)], seq![e]),\n" for t in SC) + r'''            Ev::TextBegin(_) => Some(Fl { b: FB::Text(seq![]), s: fl.s }),
            Ev::BinaryBegin(_) => Some(Fl { b: FB::Binary(seq![]), s: fl.s }),
            Ev::TextFragment(..) | Ev::TextEnd | Ev::BinaryFragment(..) | Ev::BinaryEnd => None,
            Ev::Tag(t, l, i) => if fl.s is Enum { on(FS::Done(fl.s->Enum_0.push(NCall::Tag(t, l, i)))) } else { leaff(fl, seq![NCall::Tag(t, l, i)], seq![e]) },
            Ev::SeqBegin(n) => match fl.s { FS::Any => on(FS::Seq(seq![NCall::Seq(n)])), FS::Enum(..) => None, _ => Some(Fl { b: FB::Value(feed(start(), e)), s: fl.s }) },
            Ev::MapBegin(n) => match fl.s { FS::Any => on(FS::Map(seq![NCall::Map(n)], true)), FS::Enum(..) => None, _ => Some(Fl { b: FB::Value(feed(start(), e)), s: fl.s }) },
            Ev::TupleBegin(t, l, i, n) => match fl.s {
                FS::Any => on(FS::Tuple(seq![NCall::Tuple(t, l, i, n)], None)),
                FS::Enum(h, d) => if d { None } else { on(FS::Tuple(h.push(NCall::Tuple(t, l, i, n)), None)) },
                _ => Some(Fl { b: FB::Value(feed(start(), e)), s: fl.s }) },
            Ev::RecordBegin(t, l, i, n) => match fl.s {
                FS::Any => on(FS::Record(seq![NCall::Record(t, l, i, n)], None)),
                FS::Enum(h, d) => if d { None } else { on(FS::Record(h.push(NCall::Record(t, l, i, n)), None)) },
                _ => Some(Fl { b: FB::Value(feed(start(), e)), s: fl.s }) },
            Ev::TaggedBegin(t, l, i) => match fl.s {
                FS::Any => on(FS::Tagged(t, l, i)),
                FS::Enum(h, d) => on(FS::VTagged(h, t, l, i)),
                _ => Some(Fl { b: FB::Value(feed(start(), e)), s: fl.s }) },
            Ev::EnumBegin(t, l, i) => match fl.s {
                FS::Any => on(FS::Enum(seq![NCall::Enum(t, l, i)], false)),
                FS::Enum(h, d) => on(FS::Enum(h.push(NCall::Nested(t, l, i)), true)),
                _ => Some(Fl { b: FB::Value(feed(start(), e)), s: fl.s }) },
            Ev::MapKeyBegin => match fl.s { FS::Map(c, _) => on(FS::Map(c, true)), _ => None },
            Ev::MapValueBegin => match fl.s { FS::Map(c, _) => on(FS::Map(c, false)), _ => None },
            Ev::RecordValueBegin(t, l) => match fl.s { FS::Record(c, _) => on(FS::Record(c, Some((t, l)))), _ => None },
            Ev::TupleValueBegin(t, i) => match fl.s { FS::Tuple(c, _) => on(FS::Tuple(c, Some((t, i)))), _ => None },
            Ev::SeqEnd => match fl.s { FS::Seq(c) => on(FS::Done(c.push(NCall::End))), _ => None },
            Ev::MapEnd => match fl.s { FS::Map(c, _) => on(FS::Done(c.push(NCall::End))), _ => None },
            Ev::TupleEnd(..) => match fl.s { FS::Tuple(c, _) => on(FS::Done(c.push(NCall::End))), _ => None },
            Ev::RecordEnd(..) => match fl.s { FS::Record(c, _) => on(FS::Done(c.push(NCall::End))), _ => None },
            Ev::TaggedEnd(..) => match fl.s { FS::Done(c) => on(FS::Done(c)), _ => None },
            Ev::EnumEnd(..) => match fl.s { FS::Enum(h, _) => on(FS::Done(h.push(NCall::Empty))), FS::Done(c) => on(FS::Done(c)), _ => None },
            // SeqValueBegin, the ends of items
            _ => Some(fl),
        },
    } }
}
// calls a value can make in this state (text is only followed by more of it, ends fit their begins)
pub open spec fn calm(fl: Fl, e: Ev) -> bool {
    !(fl.s is Gone) && match fl.b {
        FB::None => true,
        FB::Text(_) => e is TextFragment || e is TextEnd,
        FB::Binary(_) => e is BinaryFragment || e is BinaryEnd,
        FB::Value(g) => fits(g, degr(e)) && !(fl.s is Any) && !(fl.s is Enum),
        FB::Wild => false,
    }
}
pub open spec fn steps(fl: Fl, e: Seq<Ev>) -> Option<Fl>
    decreases e.len(),
{ if e.len() == 0 { Some(fl) } else { match steps(fl, e.drop_last()) { Some(m) => nxt(m, e.last()), None => None } } }
pub open spec fn all_calm(fl: Fl, e: Seq<Ev>) -> bool
    decreases e.len(),
{ e.len() == 0 || (all_calm(fl, e.drop_last()) && (steps(fl, e.drop_last()) matches Some(m) ==> calm(m, e.last()))) }
pub open spec fn fresh() -> Fl { Fl { b: FB::None, s: FS::Any } }
// the calls that a whole value makes
pub open spec fn doc(e: Seq<Ev>) -> Option<Seq<NCall>> {
    match steps(fresh(), e) { Some(Fl { b: FB::None, s: FS::Done(c) }) => Some(c), _ => None }
}
pub open spec fn well(e: Seq<Ev>) -> bool { all_calm(fresh(), e) && (steps(fresh(), e) matches Some(z) ==> z.b is None) }
// a whole value in the state `fl`
pub open spec fn nxtv(fl: Fl, e: Seq<Ev>) -> Option<Fl> {
    match fl.b {
        FB::Value(g) => Some(Fl { b: FB::Value(run(g, e)), s: fl.s }),
        FB::None => match fl.s {
            FS::Enum(..) => steps(fl, e),
            FS::Any => match doc(e) { Some(c) => on(FS::Done(c)), None => None },
            _ => leaff(fl, seq![], norm(e)),
        },
        _ => None,
    }
}
pub open spec fn calmv(fl: Fl, e: Seq<Ev>) -> bool {
    !(fl.s is Gone) && match fl.b {
        FB::Value(g) => all_fit(g, e) && !(fl.s is Any) && !(fl.s is Enum),
        FB::None => match fl.s { FS::Enum(..) => all_calm(fl, e), FS::Any => well(e), _ => true },
        _ => false,
    }
}

// ---- values
pub trait Value { spec fn evs(&self) -> Seq<Ev>; spec fn fails(&self) -> bool; }
impl<'a, V: Value + ?Sized> Value for &'a V { open spec fn evs(&self) -> Seq<Ev> { (**self).evs() } open spec fn fails(&self) -> bool { (**self).fails() } }
pub struct Null;
impl Value for Null { open spec fn evs(&self) -> Seq<Ev> { seq![Ev::Null] } open spec fn fails(&self) -> bool { false } }
impl Value for str { open spec fn evs(&self) -> Seq<Ev> { text_evs(self@) } open spec fn fails(&self) -> bool { false } }
pub struct BinarySlice(pub [u8]);
impl BinarySlice {
    #[verifier::external_body]
    pub fn new(b: &[u8]) -> (r: &BinarySlice) ensures r.0@ == b@, { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.0@, { unimplemented!() }
}
impl Value for BinarySlice { open spec fn evs(&self) -> Seq<Ev> { binary_evs(self.0@) } open spec fn fails(&self) -> bool { false } }
''')
for t in ["bool"] + SC:
    w(f"impl Value for {t} {{ open spec fn evs(&self) -> Seq<Ev> {{ seq![Ev::{'Bool' if t == 'bool' else t.upper()}(*self)] }} open spec fn fails(&self) -> bool {{ false }} }}\n")
w(r'''
pub mod sval_ref {
    use super::*;
    pub trait ValueRef<'sval>: Value {}
    impl<'a, 'sval, V: ValueRef<'sval> + ?Sized> ValueRef<'sval> for &'a V {}
    pub struct Ref<'sval, V: ?Sized>(pub &'sval V);
    impl<'sval, V: Value + ?Sized> Value for Ref<'sval, V> { open spec fn evs(&self) -> Seq<Ev> { self.0.evs() } open spec fn fails(&self) -> bool { self.0.fails() } }
    impl<'sval, V: Value + ?Sized> ValueRef<'sval> for Ref<'sval, V> {}
    pub fn to_ref<'sval, V: Value + ?Sized>(v: &'sval V) -> (r: Ref<'sval, V>) ensures r.0 == v, { Ref(v) }
    impl<'sval, V: ?Sized> Ref<'sval, V> { pub fn into_inner(&self) -> (r: &'sval V) ensures r == self.0, { self.0 } }
}
// ---- buffers (specs/buffer.rs, specs/fragments.rs prove these contracts of the real ones)
pub struct BufError;
pub mod mem { use super::*; #[verifier::external_body] pub fn take<T>(x: &mut T) -> (r: T) ensures r == *old(x), { unimplemented!() } }
''')
for ty, el, sl, ab, asl in (("TextBuf", "char", "str", "as_borrowed_str", "as_str"), ("BinaryBuf", "u8", "[u8]", "as_borrowed_slice", "as_slice")):
    w(f'''#[verifier::external_body]
pub struct {ty}<'sval> {{ x: &'sval u8 }}
impl<'sval> {ty}<'sval> {{
    pub uninterp spec fn content(&self) -> Seq<{el}>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.content() == Seq::<{el}>::empty(), {{ unimplemented!() }}
    #[verifier::external_body] pub fn push_fragment(&mut self, f: &'sval {sl}) -> (r: Result<(), BufError>) ensures r.is_ok(), (*final(self)).content() == (*old(self)).content() + f@, {{ unimplemented!() }}
    #[verifier::external_body] pub fn push_fragment_computed(&mut self, f: &{sl}) -> (r: Result<(), BufError>) ensures r.is_ok(), (*final(self)).content() == (*old(self)).content() + f@, {{ unimplemented!() }}
    #[verifier::external_body] pub fn {ab}(&self) -> (r: Option<&'sval {sl}>) ensures r matches Some(v) ==> v@ == self.content(), {{ unimplemented!() }}
    #[verifier::external_body] pub fn {asl}(&self) -> (r: &{sl}) ensures r@ == self.content(), {{ unimplemented!() }}
}}
''')
EVS = {"null": ("", "Ev::Null"), "bool": (", v: bool", "Ev::Bool(v)")}
for t in SC:
    EVS[t] = (f", v: {t}", f"Ev::{t.upper()}(v)")
TA = ", tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>"
TE = "ot(tag), ol(label), oi(index)"
EVS.update({"text_begin": (", n: Option<usize>", "Ev::TextBegin(n)"), "text_fragment": (", f: &'sval str", "Ev::TextFragment(f@, true)"), "text_fragment_computed": (", f: &str", "Ev::TextFragment(f@, false)"), "text_end": ("", "Ev::TextEnd"),
    "binary_begin": (", n: Option<usize>", "Ev::BinaryBegin(n)"), "binary_fragment": (", f: &'sval [u8]", "Ev::BinaryFragment(f@, true)"), "binary_fragment_computed": (", f: &[u8]", "Ev::BinaryFragment(f@, false)"), "binary_end": ("", "Ev::BinaryEnd"),
    "tag": (TA, f"Ev::Tag({TE})"), "seq_begin": (", n: Option<usize>", "Ev::SeqBegin(n)"), "map_begin": (", n: Option<usize>", "Ev::MapBegin(n)"),
    "enum_begin": (TA, f"Ev::EnumBegin({TE})"), "enum_end": (TA, f"Ev::EnumEnd({TE})"), "tagged_begin": (TA, f"Ev::TaggedBegin({TE})"), "tagged_end": (TA, f"Ev::TaggedEnd({TE})"),
    "record_begin": (TA + ", n: Option<usize>", f"Ev::RecordBegin({TE}, n)"), "record_end": (TA, f"Ev::RecordEnd({TE})"),
    "tuple_begin": (TA + ", n: Option<usize>", f"Ev::TupleBegin({TE}, n)"), "tuple_end": (TA, f"Ev::TupleEnd({TE})"),
    "record_value_begin": (", tag: Option<&Tag>, label: &Label", "Ev::RecordValueBegin(ot(tag), label@)"), "record_value_end": (", tag: Option<&Tag>, label: &Label", "Ev::RecordValueEnd(ot(tag), label@)"),
    "tuple_value_begin": (", tag: Option<&Tag>, index: &Index", "Ev::TupleValueBegin(ot(tag), index@)"), "tuple_value_end": (", tag: Option<&Tag>, index: &Index", "Ev::TupleValueEnd(ot(tag), index@)")})
for m in "seq_value_begin seq_value_end seq_end map_key_begin map_key_end map_value_begin map_value_end map_end".split():
    EVS[m] = ("", "Ev::" + "".join(x.capitalize() for x in m.split("_")))
w(r'''#[verifier::external_body]
pub struct ValueBuf<'sval> { x: &'sval u8 }
impl<'sval> Value for ValueBuf<'sval> { uninterp spec fn evs(&self) -> Seq<Ev>; open spec fn fails(&self) -> bool { false } }
pub open spec fn told(a: ValueBuf, b: ValueBuf, ok: bool, e: Ev) -> bool { a.tame() && fits(a.g(), e) ==> ok && b.tame() && b.g() == feed(a.g(), e) }
pub open spec fn driven(a: ValueBuf, b: ValueBuf, ok: bool, e: Seq<Ev>, fails: bool) -> bool { a.tame() && all_fit(a.g(), e) ==> ok == !fails && (ok ==> b.tame() && b.g() == run(a.g(), e)) }
impl<'sval> ValueBuf<'sval> {
    pub uninterp spec fn tame(&self) -> bool;
    pub uninterp spec fn g(&self) -> Got;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.tame(), r.g() == start(), { unimplemented!() }
    #[verifier::external_body] pub fn into_err(self) -> Option<BufError> { unimplemented!() }
    // a complete buffer is a value of what it was told
    #[verifier::external_body] pub fn is_complete(&self) -> (r: bool)
        ensures self.tame() ==> (r ==> self.g().open.len() == 0 && idle(self.g())) && (self.g().open.len() == 0 && idle(self.g()) && self.g().evs.len() > 0 ==> r),
            self.tame() && r ==> lend(self.evs(), false) == self.g().evs, { unimplemented!() }
''')
for m, (a, e) in EVS.items():
    w(f"    #[verifier::external_body] pub fn {m}(&mut self{a}) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), {e}), {{ unimplemented!() }}\n")
w(r'''    #[verifier::external_body] pub fn value<V: Value + ?Sized>(&mut self, v: &'sval V) -> (r: Result<()>) ensures driven(*old(self), *final(self), r.is_ok(), v.evs(), v.fails()), { unimplemented!() }
    #[verifier::external_body] pub fn value_computed<V: Value + ?Sized>(&mut self, v: &V) -> (r: Result<()>) ensures driven(*old(self), *final(self), r.is_ok(), lend(v.evs(), false), v.fails()), { unimplemented!() }
}
#[verifier::external_body]
pub fn unreached<T>() -> (r: T) requires false, { unimplemented!() }
pub fn cl_tag(o: Option<&Tag>) -> (r: Option<Tag>) ensures r == ot(o), { match o { Some(t) => Some(*t), None => None } }
#[verifier::external_body] pub fn cl_label<'a>(o: Option<&Label<'a>>) -> (r: Option<Label<'a>>) ensures olo(r) == ol(o), { unimplemented!() }
#[verifier::external_body] pub fn cl_index(o: Option<&Index>) -> (r: Option<Index>) ensures oio(r) == oi(o), { unimplemented!() }
impl Clone for Index { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@, { unimplemented!() } }
impl<'a> Label<'a> { #[verifier::external_body] pub fn to_owned(&self) -> (r: Label<'static>) ensures r@ == self@, { unimplemented!() } }
pub mod sval { pub use super::*; }
// any stream of events
pub trait Stream<'sval> {
    spec fn log(&self) -> Seq<Ev>;
    fn tag(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result<()>) ensures r.is_ok() ==> (*final(self)).log() == (*old(self)).log() + lend(seq![Ev::Tag(ot(tag), ol(label), oi(index))], false);
    fn null(&mut self) -> (r: Result<()>) ensures r.is_ok() ==> (*final(self)).log() == (*old(self)).log() + lend(seq![Ev::Null], false);
    fn value<V: Value + ?Sized>(&mut self, v: &'sval V) -> (r: Result<()>) ensures r.is_ok() ==> (*final(self)).log() == (*old(self)).log() + lend(v.evs(), false);
    fn value_computed<V: Value + ?Sized>(&mut self, v: &V) -> (r: Result<()>) ensures r.is_ok() ==> (*final(self)).log() == (*old(self)).log() + lend(v.evs(), false);
}
pub uninterp spec fn widened(v: f32) -> f64;
#[verifier::external_body]
pub fn widen(v: f32) -> (r: f64) ensures r == widened(v), { v as f64 }
// numbers as text (specs/default_stream.rs)
pub trait Printed { spec fn digits(&self) -> Seq<Ev>; }
impl Printed for i128 { uninterp spec fn digits(&self) -> Seq<Ev>; }
impl Printed for u128 { uninterp spec fn digits(&self) -> Seq<Ev>; }

pub mod nested {
pub mod sval { pub use super::super::*; }
use super::{sval_ref, Value, NCall, made, norm, doc, well, lend, Ev, Tag, Label, Index, olo, oio};
use vstd::prelude::*;
pub struct Error;
pub type Result<T = (), E = Error> = core::result::Result<T, E>;
impl Error {
    #[verifier::external_body] pub fn invalid_value(msg: &'static str) -> Error { Error }
    #[verifier::external_body] pub fn buffer(e: sval::BufError) -> Error { Error }
}
''')
# the traits
def T(name, body, extra=""):
    w(f"pub trait {name}<'sval>: Sized {{\n    type Ok;\n{extra}    spec fn steady(&self) -> bool;\n{body}}}\n")
OKS = "self.steady() ==> r.is_ok()"
def fin(m, args, call, fails="false", gen="", pre=""):
    return f"    fn {m}{gen}(self{args}) -> (r: Result<Self::Ok>)\n        ensures r matches Ok(o) ==> made(o) == {call}, self.steady() && !{fails} ==> r.is_ok();\n"
def item(m, args, call, gen):
    return f"    fn {m}{gen}(&mut self{args}value: V) -> (r: Result<()>)\n        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push({call}), (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err();\n"
VR, VC = "<V: sval_ref::ValueRef<'sval>>", "<V: Value>"
CALLS = "    spec fn calls(&self) -> Seq<NCall>;\n"
def both(m, args, call):
    return item(m, args, call, VR) + item(m + "_computed", args, call, VC)
END = fin("end", "", "self.calls().push(NCall::End)")
T("StreamSeq", CALLS + both("value", ", ", "NCall::Element(norm(value.evs()))") + END)
T("StreamMap", CALLS + both("key", ", ", "NCall::Key(norm(value.evs()))") + both("value", ", ", "NCall::Value(norm(value.evs()))") + END)
T("StreamTuple", CALLS + both("value", ", tag: Option<Tag>, index: Index, ", "NCall::TField(tag, index@, norm(value.evs()))") + END)
T("StreamRecord", CALLS + both("value", ", tag: Option<Tag>, label: Label, ", "NCall::RField(tag, label@, norm(value.evs()))") + END)
AT = ", tag: Option<Tag>, label: Option<Label>, index: Option<Index>"
AE = "tag, olo(label), oio(index)"
def begin(m, ty, args, call, calls="calls"):
    return f"    fn {m}(self{args}) -> (r: Result<Self::{ty}>)\n        ensures r matches Ok(o) ==> o.{calls}() == {call} && (self.steady() ==> o.steady()), self.steady() ==> r.is_ok();\n"
T("StreamEnum", "    spec fn head(&self) -> Seq<NCall>;\n" + fin("tag", AT, f"self.head().push(NCall::Tag({AE}))")
  + fin("tagged", AT + ", value: V", f"self.head().push(NCall::Tagged({AE}, norm(value.evs())))", "value.fails()", VR) + fin("tagged_computed", AT + ", value: V", f"self.head().push(NCall::Tagged({AE}, norm(value.evs())))", "value.fails()", VC)
  + begin("tuple_begin", "Tuple", AT + ", n: Option<usize>", f"self.head().push(NCall::Tuple({AE}, n))") + begin("record_begin", "Record", AT + ", n: Option<usize>", f"self.head().push(NCall::Record({AE}, n))"),
  "    type Tuple: StreamTuple<'sval, Ok = Self::Ok>;\n    type Record: StreamRecord<'sval, Ok = Self::Ok>;\n")
body = fin("null", "", "seq![NCall::Null]") + fin("bool", ", v: bool", "seq![NCall::Bool(v)]")
for t in SC:
    body += fin(t, f", v: {t}", f"seq![NCall::{t.upper()}(v)]")
body += fin("text", ", v: &'sval str", "seq![NCall::Text(v@)]") + fin("text_computed", ", v: &str", "seq![NCall::Text(v@)]")
body += fin("binary", ", v: &'sval [u8]", "seq![NCall::Binary(v@)]") + fin("binary_computed", ", v: &[u8]", "seq![NCall::Binary(v@)]")
body += fin("tag", AT, f"seq![NCall::Tag({AE})]")
body += fin("tagged", AT + ", value: V", f"seq![NCall::Tagged({AE}, norm(value.evs()))]", "value.fails()", VR) + fin("tagged_computed", AT + ", value: V", f"seq![NCall::Tagged({AE}, norm(value.evs()))]", "value.fails()", VC)
for m, g in (("value", VR), ("value_computed", VC), ("value_ref", "<V: Value + ?Sized>")):
    if m == "value_ref":
        body += f"    fn {m}{g}(self, value: &'sval V) -> (r: Result<Self::Ok>)\n        ensures well(value.evs()) ==> (r matches Ok(o) ==> doc(value.evs()) == Some(made(o))) && (self.steady() && !value.fails() && doc(value.evs()) is Some ==> r.is_ok()), value.fails() ==> r.is_err();\n"
        continue
    body += f"    fn {m}{g}(self, value: V) -> (r: Result<Self::Ok>)\n        ensures well(value.evs()) ==> (r matches Ok(o) ==> doc(value.evs()) == Some(made(o))) && (self.steady() && !value.fails() && doc(value.evs()) is Some ==> r.is_ok()), value.fails() ==> r.is_err();\n"
body += begin("seq_begin", "Seq", ", n: Option<usize>", "seq![NCall::Seq(n)]") + begin("map_begin", "Map", ", n: Option<usize>", "seq![NCall::Map(n)]")
body += begin("tuple_begin", "Tuple", AT + ", n: Option<usize>", f"seq![NCall::Tuple({AE}, n)]") + begin("record_begin", "Record", AT + ", n: Option<usize>", f"seq![NCall::Record({AE}, n)]")
body += begin("enum_begin", "Enum", AT, f"seq![NCall::Enum({AE})]", "head")
T("Stream", body, "".join(f"    type {x}: Stream{x}<'sval, Ok = Self::Ok>;\n" for x in ("Seq", "Map", "Tuple", "Record", "Enum")))
w(r'''// enums queue their nested variants (specs/nested_enum.rs proves these contracts)
#[verifier::reject_recursive_types(S)]
#[verifier::external_body]
pub struct FlatStreamEnum<S>(core::marker::PhantomData<S>);
impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S> {
    pub uninterp spec fn head(&self) -> Seq<NCall>;
    pub uninterp spec fn nested(&self) -> bool;
    pub uninterp spec fn steady(&self) -> bool;
    #[verifier::external_body] pub fn new(s: S) -> (r: Self) ensures r.head() == s.head(), !r.nested(), r.steady() == s.steady(), { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, tag: Option<Tag>, label: Option<Label>, index: Option<Index>) -> (r: Result<()>)
        ensures r.is_ok(), (*final(self)).head() == (*old(self)).head().push(NCall::Nested(tag, olo(label), oio(index))), (*final(self)).nested(), (*final(self)).steady() == (*old(self)).steady(), { unimplemented!() }
''')
def est(m, args, call, fails="false", gen=""):
    w(f"    #[verifier::external_body] pub fn {m}{gen}(self{args}) -> (r: Result<S::Ok>)\n        ensures r matches Ok(o) ==> made(o) == {call}, self.steady() && !{fails} ==> r.is_ok(), {{ unimplemented!() }}\n")
est("end", "", "self.head().push(NCall::Empty)")
est("tag", AT, f"self.head().push(NCall::Tag({AE}))")
est("tagged", AT + ", value: V", f"self.head().push(NCall::Tagged({AE}, norm(value.evs())))", "value.fails()", VR)
est("tagged_computed", AT + ", value: V", f"self.head().push(NCall::Tagged({AE}, norm(value.evs())))", "value.fails()", VC)
for m, ty in (("tuple", "Tuple"), ("record", "Record")):
    w(f"    #[verifier::external_body] pub fn {m}_begin(self{AT}, n: Option<usize>) -> (r: Result<S::{ty}>)\n        ensures r matches Ok(o) ==> !self.nested() && o.calls() == self.head().push(NCall::{ty}({AE}, n)) && (self.steady() ==> o.steady()), self.steady() && !self.nested() ==> r.is_ok(), {{ unimplemented!() }}\n")
w(r'''}
#[verifier::external_body]
pub fn owned_label_ref(label: &Label) -> (r: Result<Label<'static>>) ensures r matches Ok(l) && l@ == label@, { unimplemented!() }
''')
# ---- flat
w(r'''
pub mod flat {
pub mod sval { pub use super::super::super::*; }
use super::super::{sval_ref, Value, NCall, made, norm, doc, well, lend, Ev, olo, oio, ot, ol, oi, FS, FB, Fl, leafv, leaff, nxt, nxtv, calm, calmv, steps, all_calm, told, driven, feed, fits, run, start, all_fit, idle, normal, feed_normal, run_normal, norm_lend,
    TextBuf, BinaryBuf, ValueBuf, cl_tag, cl_label, cl_index, unreached, mem, text_evs, computed_text_evs, binary_evs, Got, fresh, degr, ends, on, LabelV, IndexV};
use super::super::norms;
broadcast use norms;
use super::{Stream, StreamSeq, StreamMap, StreamTuple, StreamRecord, StreamEnum, FlatStreamEnum, Error, Result, owned_label_ref};
use core::marker::PhantomData;
use vstd::prelude::*;
''')
for s in "FlatStream State Buffered Any Seq Map Record Tuple Tagged Enum EnumVariant".split():
    w(f"//@use sval_nested | flat::{s}\n")
w(r'''
pub open spec fn tf(o: Option<(Option<sval::Tag>, sval::Index)>) -> Option<(Option<sval::Tag>, IndexV)> { match o { Some((t, i)) => Some((t, i@)), None => None } }
pub open spec fn rf(o: Option<(Option<sval::Tag>, sval::Label<'static>)>) -> Option<(Option<sval::Tag>, LabelV)> { match o { Some((t, i)) => Some((t, i@)), None => None } }
impl<'sval, S: Stream<'sval>> State<'sval, S> {
    pub open spec fn fs(&self) -> FS {
        match *self {
            State::Any(Some(_)) => FS::Any,
            State::Seq(Some(s)) => FS::Seq(s.stream.calls()),
            State::Map(Some(s)) => FS::Map(s.stream.calls(), s.is_key),
            State::Tagged(Some(s)) => FS::Tagged(s.tag, olo(s.label), oio(s.index)),
            State::Tuple(Some(s)) => FS::Tuple(s.stream.calls(), tf(s.field)),
            State::Record(Some(s)) => FS::Record(s.stream.calls(), rf(s.field)),
            State::Enum(Some(s)) => FS::Enum(s.stream.head(), s.stream.nested()),
            State::EnumVariant(Some(EnumVariant::Tagged(s))) => FS::VTagged(s.stream.head(), s.tag, olo(s.label), oio(s.index)),
            State::EnumVariant(Some(EnumVariant::Tuple(s))) => FS::Tuple(s.stream.calls(), tf(s.field)),
            State::EnumVariant(Some(EnumVariant::Record(s))) => FS::Record(s.stream.calls(), rf(s.field)),
            State::Done(Some(Ok(o))) => FS::Done(made(o)),
            State::Done(Some(Err(_))) => FS::Failed,
            _ => FS::Gone,
        }
    }
    // nothing behind it fails of its own accord
    pub open spec fn steady(&self) -> bool {
        match *self {
            State::Any(Some(s)) => s.stream.steady(),
            State::Seq(Some(s)) => s.stream.steady(),
            State::Map(Some(s)) => s.stream.steady(),
            State::Tagged(Some(s)) => s.stream.steady(),
            State::Tuple(Some(s)) => s.stream.steady(),
            State::Record(Some(s)) => s.stream.steady(),
            State::Enum(Some(s)) => s.stream.steady(),
            State::EnumVariant(Some(EnumVariant::Tagged(s))) => s.stream.steady(),
            State::EnumVariant(Some(EnumVariant::Tuple(s))) => s.stream.steady(),
            State::EnumVariant(Some(EnumVariant::Record(s))) => s.stream.steady(),
            _ => true,
        }
    }
}
pub open spec fn fb(b: Option<Buffered>) -> FB {
    match b {
        None => FB::None,
        Some(Buffered::Text(t)) => FB::Text(t.content()),
        Some(Buffered::Binary(t)) => FB::Binary(t.content()),
        Some(Buffered::Value(v)) => if v.tame() && normal(v.g()) { FB::Value(v.g()) } else { FB::Wild },
    }
}
impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
    pub open spec fn fl(&self) -> Fl { Fl { b: fb(self.buffered), s: self.state.fs() } }
}
// the contract of every event
pub open spec fn did<'sval, S: Stream<'sval>>(a: FlatStream<'sval, S>, z: FlatStream<'sval, S>, ok: bool, e: Ev) -> bool {
    &&& !ok ==> z.fl().s is Failed
    &&& ok && calm(a.fl(), e) ==> nxt(a.fl(), e) == Some(z.fl())
    &&& a.state.steady() && calm(a.fl(), e) && nxt(a.fl(), e) is Some ==> ok && z.state.steady()
}
pub open spec fn didv<'sval, S: Stream<'sval>>(a: FlatStream<'sval, S>, z: FlatStream<'sval, S>, ok: bool, e: Seq_<Ev>, fails: bool) -> bool {
    &&& !ok ==> z.fl().s is Failed
    &&& ok && calmv(a.fl(), e) ==> nxtv(a.fl(), e) == Some(z.fl())
    &&& a.state.steady() && calmv(a.fl(), e) && nxtv(a.fl(), e) is Some && !fails ==> ok && z.state.steady()
}
use vstd::seq::Seq as Seq_;
// a closure run on a buffer
#[verifier::prophetic]
pub open spec fn bstep<'a, C: FnOnce(&mut ValueBuf<'a>) -> sval::Result>(f: C, a: ValueBuf<'a>, z: ValueBuf<'a>, ok: bool) -> bool {
    exists|x: &mut ValueBuf<'a>, q: sval::Result| *x == a && *final(x) == z && #[trigger] f.ensures((x,), q) && q.is_ok() == ok
}
pub open spec fn berr<'a, C: FnOnce(&mut ValueBuf<'a>) -> sval::Result>(f: C, a: ValueBuf<'a>) -> bool {
    exists|x: &mut ValueBuf<'a>, q: sval::Result| *x == a && #[trigger] f.ensures((x,), q) && q is Err
}
#[verifier::prophetic]
pub open spec fn bnew<'a, C: FnOnce(&mut ValueBuf<'a>) -> sval::Result>(f: C, z: ValueBuf<'a>) -> bool {
    exists|x: &mut ValueBuf<'a>, q: sval::Result| x.tame() && x.g() == start() && *final(x) == z && #[trigger] f.ensures((x,), q) && q is Ok
}
pub open spec fn bnewerr<'a, C: FnOnce(&mut ValueBuf<'a>) -> sval::Result>(f: C) -> bool {
    exists|x: &mut ValueBuf<'a>, q: sval::Result| x.tame() && x.g() == start() && #[trigger] f.ensures((x,), q) && q is Err
}
''')
w(r'''
//@fn sval_nested | flat::try_catch
//@spec
    requires forall|x: &mut FlatStream<'sval, S>| *x == *old(stream) ==> #[trigger] f.requires((x,)),
    ensures exists|x: &mut FlatStream<'sval, S>, q: Result<T>| *x == *old(stream) && #[trigger] f.ensures((x,), q)
        && (q matches Ok(v) ==> (r matches Ok(v2) && v2 == v) && *final(x) == *final(stream)) && (q is Err ==> r is Err),
        r is Err ==> final(stream).fl().s is Failed,
//@end
''')
w("impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {\n")
BW = r'''match old($S).buffered {
        Some(Buffered::Value(b)) => (r is Ok ==> final($S).state == old($S).state && (final($S).buffered matches Some(Buffered::Value(z)) && bstep(buffer, b, z, true))) && (r is Err ==> berr(buffer, b)),
        _ => exists|x: &mut FlatStream<'sval, S>, q: $Q| *x == *old($S) && #[trigger] stream.ensures((x,), q) && $R,
    }'''
def bw(s, q, r):
    return BW.replace("$S", s).replace("$Q", q).replace("$R", r)
REQ = "    requires forall|x: &mut ValueBuf<'sval>| #[trigger] buffer.requires((x,)), forall|x: &mut FlatStream<'sval, S>| #[trigger] $F.requires((x,)),\n"
SAME = "(q is Ok ==> r is Ok && *final(x) == *final($S)) && (q is Err ==> r is Err)"
w(f'''//@fn sval_nested | {INH}::buffer_or_with
//@closure 1
&mut FlatStream<'sval, S> -> (r: Result<()>)
    ensures {bw("$1", "Result<()>", SAME.replace("$S", "$1"))}
//@spec
{REQ.replace("$F", "stream")}    ensures {bw("self", "Result<()>", SAME.replace("$S", "self"))}, r is Err ==> final(self).fl().s is Failed,
//@end
// the same with a stream that answers with a value: what buffer_or_stream_with's closure writes to its `r`
//@fn sval_nested | {INH}::buffer_or_with
//@as buffer_or_with_ret
//@sub stream: impl FnOnce\\(&mut Self\\) -> Result\\b(?!<) => stream: impl FnOnce(&mut Self) -> Result<Option<S::Ok>>
//@sub \\(r: sval::Result\\) => (r: sval::Result<Option<S::Ok>>)
//@sub \\)\\s*-> sval::Result\\s*\\{{ => ) -> sval::Result<Option<S::Ok>> {{
//@sub Ok\\(\\(\\)\\) => Ok(None)
//@closure 1
&mut FlatStream<'sval, S> -> (r: Result<Option<S::Ok>>)
    ensures {bw("$1", "Result<Option<S::Ok>>", "(q matches Ok(o) ==> (r matches Ok(o2) && o2 == o) && *final(x) == *final($1)) && (q is Err ==> r is Err)")}, old($1).buffered matches Some(Buffered::Value(_)) && r is Ok ==> (r matches Ok(None))
//@spec
{REQ.replace("$F", "stream")}    ensures {bw("self", "Result<Option<S::Ok>>", "(q matches Ok(o) ==> (r matches Ok(o2) && o2 == o) && *final(x) == *final(self)) && (q is Err ==> r is Err)")},
        old(self).buffered matches Some(Buffered::Value(_)) && r is Ok ==> (r matches Ok(None)), r is Err ==> final(self).fl().s is Failed,
//@end
//@fn sval_nested | {INH}::buffer_or_stream_with
//@sub let mut r = None; =>
//@sub (?s)self\\.buffer_or_with\\(buffer,\\s*\\|s\\|\\s*match stream\\(s\\) \\{{\\s*Ok\\(ok\\)\\s*=>\\s*\\{{\\s*r = ok;\\s*Ok\\(\\(\\)\\)\\s*\\}}\\s*Err\\(e\\)\\s*=>\\s*Err\\(e\\),\\s*\\}}\\)\\?; => let r = self.buffer_or_with_ret(buffer, stream)?;
//@spec
{REQ.replace("$F", "stream")}    ensures {bw("self", "Result<Option<S::Ok>>", "(q matches Ok(None) ==> r is Ok && *final(x) == *final(self)) && (q matches Ok(Some(o)) ==> r is Ok && final(self).buffered == final(x).buffered && (final(self).state matches State::Done(Some(Ok(o2))) && o2 == o)) && (q is Err ==> r is Err)")},
        r is Err ==> final(self).fl().s is Failed,
//@end
''')
BB = r'''match *old($S) {
        FlatStream { buffered: Some(Buffered::Value(b)), .. } => (r is Ok ==> $N && final($S).state == old($S).state && (final($S).buffered matches Some(Buffered::Value(z)) && bstep(buffer, b, z, true))) && (r is Err ==> berr(buffer, b)),
        FlatStream { buffered: None, state: State::Any(Some(a)) } => exists|q: Result<State<'sval, S>>| #[trigger] transition_any.ensures((a,), q) && (q matches Ok(z) ==> r is Ok && $N && final($S).state == z && final($S).buffered is None) && (q is Err ==> r is Err),
        FlatStream { buffered: None, state: State::Enum(Some(a)) } => exists|q: Result<State<'sval, S>>| #[trigger] transition_enum.ensures((a,), q) && (q matches Ok(z) ==> r is Ok && $N && final($S).state == z && final($S).buffered is None) && (q is Err ==> r is Err),
        FlatStream { buffered: None, state: State::Any(None) } => r is Err,
        FlatStream { buffered: None, state: State::Enum(None) } => r is Err,
        FlatStream { buffered: None, .. } => (r is Ok ==> final($S).state == old($S).state && ($M matches Some(Buffered::Value(z)) && bnew(buffer, z)))
            && (r is Err ==> bnewerr(buffer)),
        _ => r is Err,
    }'''
w(f'''//@fn sval_nested | {INH}::buffer_or_begin_with
//@sub mut buffer: impl FnMut => buffer: impl Fn
//@closure 1
&mut FlatStream<'sval, S> -> (r: Result<Option<Buffered<'sval>>>)
    ensures {BB.replace("$S", "$1").replace("$N", "(r matches Ok(None))").replace("$M", "r->Ok_0")}
//@spec
    requires forall|x: &mut ValueBuf<'sval>| #[trigger] buffer.requires((x,)), forall|x: Any<'sval, S>| #[trigger] transition_any.requires((x,)), forall|x: Enum<FlatStreamEnum<S::Enum>>| #[trigger] transition_enum.requires((x,)),
    ensures {BB.replace("$S", "self").replace("$N", "true").replace("$M", "final(self).buffered")},
        r is Err ==> final(self).fl().s is Failed,
//@end
''')
BE = r'''match *old($S) {
        FlatStream { buffered: None, .. } => exists|x: &mut FlatStream<'sval, S>, q: Result<S::Ok>| *x == *old($S) && #[trigger] transition.ensures((x,), q) && (q matches Ok(o) ==> $T) && (q is Err ==> r is Err),
        FlatStream { buffered: Some(Buffered::Value(b)), state } => (r is Ok ==> exists|x: &mut ValueBuf<'sval>, q: sval::Result| #[trigger] buffer.ensures((x,), q) && q is Ok && *x == b && ({ let z = *final(x); z.tame() && normal(z.g()) ==>
                if z.g().open.len() == 0 && idle(z.g()) && z.g().evs.len() > 0 { !(state is Any) && !(state is Enum) ==> $L }
                else if z.g().open.len() != 0 || !idle(z.g()) { final($S).state == state && final($S).buffered == Some(Buffered::Value(z)) $X } else { true } }))
            && (r is Err ==> exists|x: &mut ValueBuf<'sval>, q: sval::Result| #[trigger] buffer.ensures((x,), q) && *x == b && ({ let z = *final(x); z.tame() && normal(z.g()) && q is Ok && state.steady() && !(state is Any) ==> z.g().open.len() == 0 && idle(z.g()) && leafv(state.fs(), seq![], z.g().evs) is None })),
        _ => r is Err,
    }'''
w(f'''//@fn sval_nested | {INH}::buffer_or_end_with
//@closure 1
&mut FlatStream<'sval, S> -> (r: Result<Option<S::Ok>>)
    ensures {BE.replace("$S", "$1").replace("$T", "*final(x) == *final($1) && (r matches Ok(Some(o2)) && o2 == o)").replace("$X", "&& (r matches Ok(None))").replace("$L", "final($1).buffered is None && (match r { Ok(Some(o)) => leafv(state.fs(), seq![], z.g().evs) == Some(FS::Done(made(o))), _ => leafv(state.fs(), seq![], z.g().evs) == Some(final($1).state.fs()) && (state.steady() ==> final($1).state.steady()) })")}
//@sub \\|(\\w+),\\s*(\\w+)\\|\\s*\\1\\.value_computed\\(\\2\\) => |\\1: S, \\2: &ValueBuf<'sval>| -> (q: Result<S::Ok>) {{ \\1.value_computed(\\2) }}
//@spec
{REQ.replace("$F", "transition")}    ensures {BE.replace("$S", "self").replace("$T", "r is Ok && final(x).buffered == final(self).buffered && (final(self).state matches State::Done(Some(Ok(o2))) && o2 == o)").replace("$X", "").replace("$L", "final(self).buffered is None && leafv(state.fs(), seq![], z.g().evs) == Some(final(self).state.fs()) && (state.steady() ==> final(self).state.steady())")},
        r is Err ==> final(self).fl().s is Failed,
//@end
''')
w("}\n")
# ---- State
SP = "flat::{impl<'sval, S: Stream<'sval>> State<'sval, S>}"
def fin_(cl, args, extra=""):
    return f"exists|q: Result<S::Ok>| #[trigger] {cl}.ensures(({args},), q) && (q matches Ok(o) ==> (r matches Ok(Some(o2)) && o2 == o)) && (q is Err ==> r is Err)".replace(",,", ",")
def it_(cl, ty, args, pat, field, sel="z.stream", none=""):
    return f"exists|x: &mut {ty}, q: Result<()>| *x == {field} && #[trigger] {cl}.ensures((x, {args}), q) && (q is Ok ==> (r matches Ok(None)) && (*final(self) matches {pat} && {sel} == *final(x){none})) && (q is Err ==> r is Err)".replace("(x, )", "(x,)")
w("impl<'sval, S: Stream<'sval>> State<'sval, S> {\n")
w(f'''//@fn sval_nested | {SP}::value_with
//@sub ::core::panicking::unreachable_default_msg\\(\\) => unreached()
//@spec
    requires forall|a: S| #[trigger] any.requires((a,)), forall|a: S, b: Option<sval::Tag>, c: Option<sval::Label>, d: Option<sval::Index>| #[trigger] tagged.requires((a, b, c, d)),
        forall|x: &mut S::Seq| #[trigger] seq.requires((x,)), forall|x: &mut S::Map| #[trigger] map_key.requires((x,)), forall|x: &mut S::Map| #[trigger] map_value.requires((x,)),
        forall|x: &mut S::Tuple, b: Option<sval::Tag>, c: sval::Index| #[trigger] tuple.requires((x, b, c)), forall|x: &mut S::Record, b: Option<sval::Tag>, c: sval::Label| #[trigger] record.requires((x, b, c)),
        forall|a: FlatStreamEnum<S::Enum>, b: Option<sval::Tag>, c: Option<sval::Label>, d: Option<sval::Index>| #[trigger] tagged_variant.requires((a, b, c, d)),
        forall|x: &mut <S::Enum as StreamEnum<'sval>>::Tuple, b: Option<sval::Tag>, c: sval::Index| #[trigger] tuple_variant.requires((x, b, c)), forall|x: &mut <S::Enum as StreamEnum<'sval>>::Record, b: Option<sval::Tag>, c: sval::Label| #[trigger] record_variant.requires((x, b, c)),
    ensures match *old(self) {{
        State::Any(Some(a)) => {fin_("any", "a.stream")},
        State::Tagged(Some(a)) => {fin_("tagged", "a.stream, a.tag, a.label, a.index")},
        State::Seq(Some(a)) => {it_("seq", "S::Seq", "", "State::Seq(Some(z))", "a.stream")},
        State::Map(Some(a)) => if a.is_key {{ {it_("map_key", "S::Map", "", "State::Map(Some(z))", "a.stream", none=" && z.is_key == a.is_key")} }} else {{ {it_("map_value", "S::Map", "", "State::Map(Some(z))", "a.stream", none=" && z.is_key == a.is_key")} }},
        State::Tuple(Some(Tuple {{ stream, field: Some((t, i)) }})) => {it_("tuple", "S::Tuple", "t, i", "State::Tuple(Some(z))", "stream", none=" && z.field is None")},
        State::Record(Some(Record {{ stream, field: Some((t, i)) }})) => {it_("record", "S::Record", "t, i", "State::Record(Some(z))", "stream", none=" && z.field is None")},
        State::EnumVariant(Some(EnumVariant::Tagged(a))) => {fin_("tagged_variant", "a.stream, a.tag, a.label, a.index")},
        State::EnumVariant(Some(EnumVariant::Tuple(Tuple {{ stream, field: Some((t, i)) }}))) => {it_("tuple_variant", "<S::Enum as StreamEnum<'sval>>::Tuple", "t, i", "State::EnumVariant(Some(EnumVariant::Tuple(z)))", "stream", none=" && z.field is None")},
        State::EnumVariant(Some(EnumVariant::Record(Record {{ stream, field: Some((t, i)) }}))) => {it_("record_variant", "<S::Enum as StreamEnum<'sval>>::Record", "t, i", "State::EnumVariant(Some(EnumVariant::Record(z)))", "stream", none=" && z.field is None")},
        _ => r is Err,
    }},
//@end
''')
def vcl(sfx):
    def c0(m, t, call): return f"{t} -> (q: Result<S::Ok>)\n    ensures q matches Ok(o) ==> made(o) == {call}, $1.steady() && !value.fails() ==> q.is_ok()"
    def c1(t, call): return f"{t} -> (q: Result<()>)\n    ensures q.is_ok() ==> (*final($1)).calls() == (*old($1)).calls().push({call}), (*final($1)).steady() == (*old($1)).steady(), (*old($1)).steady() && !value.fails() ==> q.is_ok()"
    TT = "Option<sval::Tag>; Option<sval::Label>; Option<sval::Index>"
    P = "norm(value.evs())"
    one = [f"S -> (q: Result<S::Ok>)\n    ensures any.ensures(($1, value), q)", c1("&mut S::Seq", f"NCall::Element({P})"), c1("&mut S::Map", f"NCall::Key({P})"), c1("&mut S::Map", f"NCall::Value({P})")]
    four = [c0("tagged", f"S; {TT}", f"seq![NCall::Tagged($2, olo($3), oio($4), {P})]"), c0("tagged", f"FlatStreamEnum<S::Enum>; {TT}", f"$1.head().push(NCall::Tagged($2, olo($3), oio($4), {P}))")]
    E = "<S::Enum as StreamEnum<'sval>>::"
    three = [c1("&mut S::Tuple; Option<sval::Tag>; sval::Index", f"NCall::TField($2, $3@, {P})"), c1("&mut S::Record; Option<sval::Tag>; sval::Label", f"NCall::RField($2, $3@, {P})"),
        c1(f"&mut {E}Tuple; Option<sval::Tag>; sval::Index", f"NCall::TField($2, $3@, {P})"), c1(f"&mut {E}Record; Option<sval::Tag>; sval::Label", f"NCall::RField($2, $3@, {P})")]
    return "".join(f"//@closure {n}\n" + "\n===\n".join(l) + "\n" for n, l in ((1, one), (4, four), (3, three)))
LEAF = r'''    requires forall|a: S| #[trigger] any.requires((a, value)),
    ensures match *old(self) {
        State::Any(Some(a)) => exists|q: Result<S::Ok>| #[trigger] any.ensures((a.stream, value), q) && (q matches Ok(o) ==> (r matches Ok(Some(o2)) && o2 == o)) && (q is Err ==> r is Err),
        _ => {
            &&& r matches Ok(None) ==> leafv(old(self).fs(), seq![], norm(value.evs())) == Some(final(self).fs())
            &&& r matches Ok(Some(o)) ==> leafv(old(self).fs(), seq![], norm(value.evs())) == Some(FS::Done(made(o)))
            &&& old(self).steady() && !value.fails() && leafv(old(self).fs(), seq![], norm(value.evs())) is Some ==> r is Ok && ((r matches Ok(None)) ==> final(self).steady())
        },
    },
'''
for m in ("value", "value_computed"):
    w(f"//@fn sval_nested | {SP}::{m}\n{vcl('')}//@spec\n{LEAF}//@end\n")
w("}\n")
open_tail = len(out)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mknested2.py")).read())
w("}\nfn main() {}\n}\n")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "nested_flat.rs"), "w").write("".join(out))
