// C18: flat streams made recursive.
//
// A recursive stream is seen through the calls made on it: its result carries the calls that made
// it (`made`), and a stream for a container the calls so far.  A part that is given to one of those
// calls is seen through its events, with text and binary content whole (`norm`).  `nxt` says what
// each event of a flat stream does; the real methods are proved to do exactly that.
use vstd::prelude::*;
verus! {
//@include data.rs
//@include events.rs
//@include got.rs
pub open spec fn text_evs(s: Seq<char>) -> Seq<Ev> { seq![Ev::TextBegin(Some(vstd::utf8::encode_utf8(s).len() as usize)), Ev::TextFragment(s, true), Ev::TextEnd] }
pub open spec fn computed_text_evs(s: Seq<char>) -> Seq<Ev> { lend(text_evs(s), false) }
pub open spec fn binary_evs(b: Seq<u8>) -> Seq<Ev> { seq![Ev::BinaryBegin(Some(b.len() as usize)), Ev::BinaryFragment(b, true), Ev::BinaryEnd] }
pub open spec fn start() -> Got { Got { evs: seq![], open: seq![], text: None, binary: None } }
#[verifier::opaque] pub open spec fn norm(e: Seq<Ev>) -> Seq<Ev> { run(start(), e).evs }
// text is whole in what a buffer keeps, so that it is its own normal form
#[verifier::opaque] pub open spec fn normal(g: Got) -> bool { run(start(), g.evs) == (Got { evs: g.evs, open: g.open, text: None, binary: None }) }
pub broadcast proof fn feed_normal(g: Got, e: Ev)
    requires normal(g), fits(g, e),
    ensures normal(#[trigger] feed(g, e)),
{
    reveal(normal);
    let r = Got { evs: g.evs, open: g.open, text: None, binary: None };
    match e {
        Ev::TextBegin(_) | Ev::TextFragment(..) | Ev::BinaryBegin(_) | Ev::BinaryFragment(..) => {}
        Ev::TextEnd => { run3(r, g.evs, computed_text_evs(g.text.unwrap())); let x = computed_text_evs(g.text.unwrap()); assert(Seq::<char>::empty() + g.text.unwrap() =~= g.text.unwrap()); assert(x[1] == Ev::TextFragment(g.text.unwrap(), false)); assert(x[2] == Ev::TextEnd); assert(x[0] is TextBegin); }
        Ev::BinaryEnd => { let x = lend(binary_evs(g.binary.unwrap()), false); run3(r, g.evs, x); assert(Seq::<u8>::empty() + g.binary.unwrap() =~= g.binary.unwrap()); assert(x[1] == Ev::BinaryFragment(g.binary.unwrap(), false)); assert(x[2] == Ev::BinaryEnd); assert(x[0] is BinaryBegin); }
        _ => { assert(g.evs.push(e).drop_last() =~= g.evs); assert(g.evs.push(e).last() == e); }
    }
}
pub proof fn run3(r: Got, s: Seq<Ev>, x: Seq<Ev>)
    requires x.len() == 3, run(start(), s) == r,
    ensures run(start(), s + x) == feed(feed(feed(r, x[0]), x[1]), x[2]),
{
    reveal_with_fuel(run, 4);
    assert((s + x).drop_last().drop_last().drop_last() =~= s);
    assert((s + x).last() == x[2]); assert((s + x).drop_last().last() == x[1]); assert((s + x).drop_last().drop_last().last() == x[0]);
}
pub broadcast proof fn run_normal(g: Got, e: Seq<Ev>)
    requires normal(g), all_fit(g, e),
    ensures normal(#[trigger] run(g, e)),
    decreases e.len(),
{ if e.len() > 0 { run_normal(g, e.drop_last()); feed_normal(run(g, e.drop_last()), e.last()); } }
pub proof fn run_lend(g: Got, e: Seq<Ev>)
    ensures run(g, lend(e, false)) == run(g, e), all_fit(g, lend(e, false)) == all_fit(g, e),
    decreases e.len(),
{
    if e.len() > 0 {
        run_lend(g, e.drop_last());
        assert(lend(e, false).drop_last() =~= lend(e.drop_last(), false));
    }
}
pub broadcast proof fn norm_lend(g: Got, e: Seq<Ev>)
    ensures #[trigger] run(g, lend(e, false)) == run(g, e), all_fit(g, lend(e, false)) == all_fit(g, e),
{ run_lend(g, e); }
pub broadcast proof fn norm_lend2(e: Seq<Ev>)
    ensures norm(e) == norm(#[trigger] lend(e, false)),
{ reveal(norm); run_lend(start(), e); }
pub broadcast proof fn norm_of(g: Got)
    requires #[trigger] normal(g),
    ensures norm(g.evs) == g.evs,
{ reveal(norm); reveal(normal); }
pub open spec fn leaf(e: Ev) -> bool {
    match e { Ev::TextBegin(_) | Ev::TextFragment(..) | Ev::TextEnd | Ev::BinaryBegin(_) | Ev::BinaryFragment(..) | Ev::BinaryEnd => false, _ => true }
}
pub broadcast proof fn norm_leaf(e: Ev)
    requires leaf(e),
    ensures #[trigger] norm(seq![e]) == seq![e],
{ reveal(norm); reveal_with_fuel(run, 2); assert(seq![e].drop_last() =~= Seq::<Ev>::empty()); assert(Seq::<Ev>::empty() + seq![e] =~= seq![e]); }
pub broadcast proof fn norm_text(s: Seq<char>)
    ensures #[trigger] norm(text_evs(s)) == computed_text_evs(s),
{ reveal(norm); assert(Seq::<Ev>::empty() + text_evs(s) =~= text_evs(s)); run3(start(), seq![], text_evs(s)); assert(Seq::<char>::empty() + s =~= s); assert(Seq::<Ev>::empty() + computed_text_evs(s) =~= computed_text_evs(s)); }
pub broadcast proof fn norm_binary(s: Seq<u8>)
    ensures #[trigger] norm(binary_evs(s)) == lend(binary_evs(s), false),
{ reveal(norm); assert(Seq::<Ev>::empty() + binary_evs(s) =~= binary_evs(s)); run3(start(), seq![], binary_evs(s)); assert(Seq::<u8>::empty() + s =~= s); assert(Seq::<Ev>::empty() + lend(binary_evs(s), false) =~= lend(binary_evs(s), false)); }
pub broadcast group norms { norm_leaf, norm_text, norm_binary, norm_lend2, norm_of, feed_normal, run_normal, run_lend_b, fit_lend_b, normal_start }
pub broadcast proof fn normal_start()
    ensures #[trigger] normal(start()),
{ reveal(normal); assert(start().evs =~= Seq::<Ev>::empty()); }
pub broadcast proof fn run_lend_b(g: Got, e: Seq<Ev>)
    ensures #[trigger] run(g, lend(e, false)) == run(g, e),
{ run_lend(g, e); }
pub broadcast proof fn fit_lend_b(g: Got, e: Seq<Ev>)
    ensures #[trigger] all_fit(g, lend(e, false)) == all_fit(g, e),
{ run_lend(g, e); }
pub open spec fn olo(o: Option<Label>) -> Option<LabelV> { match o { Some(t) => Some(t@), None => None } }
pub open spec fn oio(o: Option<Index>) -> Option<IndexV> { match o { Some(t) => Some(t@), None => None } }

// ---- the calls of a recursive stream
pub ghost enum NCall {
    Null, Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), F32(f32), F64(f64), Text(Seq<char>), Binary(Seq<u8>),
    Tag(Option<Tag>, Option<LabelV>, Option<IndexV>), Tagged(Option<Tag>, Option<LabelV>, Option<IndexV>, Seq<Ev>),
    Seq(Option<usize>), Element(Seq<Ev>), Map(Option<usize>), Key(Seq<Ev>), Value(Seq<Ev>),
    Tuple(Option<Tag>, Option<LabelV>, Option<IndexV>, Option<usize>), TField(Option<Tag>, IndexV, Seq<Ev>), Record(Option<Tag>, Option<LabelV>, Option<IndexV>, Option<usize>), RField(Option<Tag>, LabelV, Seq<Ev>),
    Enum(Option<Tag>, Option<LabelV>, Option<IndexV>), Nested(Option<Tag>, Option<LabelV>, Option<IndexV>), Empty, End,
}
pub uninterp spec fn made<T>(o: T) -> Seq<NCall>;

// ---- what a flat stream turns its events into
// `Any`: nothing yet; `Seq`, `Map` .. the calls so far; `Done`: the calls that made the result
pub ghost enum FS {
    Any, Seq(Seq<NCall>), Map(Seq<NCall>, bool), Tagged(Option<Tag>, Option<LabelV>, Option<IndexV>), Tuple(Seq<NCall>, Option<(Option<Tag>, IndexV)>), Record(Seq<NCall>, Option<(Option<Tag>, LabelV)>),
    Enum(Seq<NCall>, bool), VTagged(Seq<NCall>, Option<Tag>, Option<LabelV>, Option<IndexV>), Done(Seq<NCall>), Failed, Gone,
}
pub ghost enum FB { None, Text(Seq<char>), Binary(Seq<u8>), Value(Got), Wild }
pub ghost struct Fl { pub b: FB, pub s: FS }
// one whole part, in the state `s`
pub open spec fn leafv(s: FS, any: Seq<NCall>, p: Seq<Ev>) -> Option<FS> {
    match s {
        FS::Any => Some(FS::Done(any)),
        FS::Tagged(t, l, i) => Some(FS::Done(seq![NCall::Tagged(t, l, i, p)])),
        FS::Seq(c) => Some(FS::Seq(c.push(NCall::Element(p)))),
        FS::Map(c, k) => Some(FS::Map(c.push(if k { NCall::Key(p) } else { NCall::Value(p) }), k)),
        FS::Tuple(c, Some((t, i))) => Some(FS::Tuple(c.push(NCall::TField(t, i, p)), None)),
        FS::Record(c, Some((t, l))) => Some(FS::Record(c.push(NCall::RField(t, l, p)), None)),
        FS::VTagged(c, t, l, i) => Some(FS::Done(c.push(NCall::Tagged(t, l, i, p)))),
        _ => None,
    }
}
pub open spec fn leaff(fl: Fl, any: Seq<NCall>, p: Seq<Ev>) -> Option<Fl> {
    match leafv(fl.s, any, p) { Some(s) => Some(Fl { b: FB::None, s }), None => None }
}
pub open spec fn on(s: FS) -> Option<Fl> { Some(Fl { b: FB::None, s }) }
// record tuples arrive as records
pub open spec fn degr(e: Ev) -> Ev {
    match e {
        Ev::RecordTupleBegin(t, l, i, n) => Ev::RecordBegin(t, l, i, n),
        Ev::RecordTupleValueBegin(t, l, i) => Ev::RecordValueBegin(t, l),
        Ev::RecordTupleValueEnd(t, l, i) => Ev::RecordValueEnd(t, l),
        Ev::RecordTupleEnd(t, l, i) => Ev::RecordEnd(t, l, i),
        _ => e,
    }
}
pub open spec fn ends(e: Ev) -> bool {
    match e { Ev::SeqEnd | Ev::MapEnd | Ev::EnumEnd(..) | Ev::TaggedEnd(..) | Ev::RecordEnd(..) | Ev::TupleEnd(..) => true, _ => false }
}
pub open spec fn nxt(fl: Fl, e0: Ev) -> Option<Fl> {
    let e = degr(e0);
    if e is TagHint { Some(fl) } else {
    match fl.b {
        FB::Value(g) => if ends(e) && feed(g, e).open.len() == 0 && idle(feed(g, e)) { leaff(fl, seq![], feed(g, e).evs) } else { Some(Fl { b: FB::Value(feed(g, e)), s: fl.s }) },
        FB::Text(c) => match e {
            Ev::TextFragment(s, _) => Some(Fl { b: FB::Text(c + s), s: fl.s }),
            Ev::TextEnd => leaff(fl, seq![NCall::Text(c)], computed_text_evs(c)),
            _ => None,
        },
        FB::Binary(c) => match e {
            Ev::BinaryFragment(s, _) => Some(Fl { b: FB::Binary(c + s), s: fl.s }),
            Ev::BinaryEnd => leaff(fl, seq![NCall::Binary(c)], lend(binary_evs(c), false)),
            _ => None,
        },
        FB::Wild => None,
        FB::None => match e {
            Ev::Null => leaff(fl, seq![NCall::Null], seq![e]),
            Ev::Bool(v) => leaff(fl, seq![NCall::Bool(v)], seq![e]),
            Ev::I8(v) => leaff(fl, seq![NCall::I8(v)], seq![e]),
            Ev::I16(v) => leaff(fl, seq![NCall::I16(v)], seq![e]),
            Ev::I32(v) => leaff(fl, seq![NCall::I32(v)], seq![e]),
            Ev::I64(v) => leaff(fl, seq![NCall::I64(v)], seq![e]),
            Ev::I128(v) => leaff(fl, seq![NCall::I128(v)], seq![e]),
            Ev::U8(v) => leaff(fl, seq![NCall::U8(v)], seq![e]),
            Ev::U16(v) => leaff(fl, seq![NCall::U16(v)], seq![e]),
            Ev::U32(v) => leaff(fl, seq![NCall::U32(v)], seq![e]),
            Ev::U64(v) => leaff(fl, seq![NCall::U64(v)], seq![e]),
            Ev::U128(v) => leaff(fl, seq![NCall::U128(v)], seq![e]),
            Ev::F32(v) => leaff(fl, seq![NCall::F32(v)], seq![e]),
            Ev::F64(v) => leaff(fl, seq![NCall::F64(v)], seq![e]),
            Ev::TextBegin(_) => Some(Fl { b: FB::Text(seq![]), s: fl.s }),
            Ev::BinaryBegin(_) => Some(Fl { b: FB::Binary(seq![]), s: fl.s }),
            Ev::TextFragment(..) | Ev::TextEnd | Ev::BinaryFragment(..) | Ev::BinaryEnd => None,
            Ev::Tag(t, l, i) => if fl.s is Enum { on(FS::Done(fl.s->Enum_0.push(NCall::Tag(t, l, i)))) } else { leaff(fl, seq![NCall::Tag(t, l, i)], seq![e]) },
            Ev::SeqBegin(n) => match fl.s { FS::Any => on(FS::Seq(seq![NCall::Seq(n)])), FS::Enum(..) => None, _ => Some(Fl { b: FB::Value(feed(start(), e)), s: fl.s }) },
            Ev::MapBegin(n) => match fl.s { FS::Any => on(FS::Map(seq![NCall::Map(n)], true)), FS::Enum(..) => None, _ => Some(Fl { b: FB::Value(feed(start(), e)), s: fl.s }) },
            Ev::TupleBegin(t, l, i, n) => match fl.s {
                FS::Any => on(FS::Tuple(seq![NCall::Tuple(t, l, i, n)], None)),
                FS::Enum(h, d) => if d { None } else { on(FS::Tuple(h.push(NCall::Tuple(t, l, i, n)), None)) },
                _ => Some(Fl { b: FB::Value(feed(start(), e)), s: fl.s }) },
            Ev::RecordBegin(t, l, i, n) => match fl.s {
                FS::Any => on(FS::Record(seq![NCall::Record(t, l, i, n)], None)),
                FS::Enum(h, d) => if d { None } else { on(FS::Record(h.push(NCall::Record(t, l, i, n)), None)) },
                _ => Some(Fl { b: FB::Value(feed(start(), e)), s: fl.s }) },
            Ev::TaggedBegin(t, l, i) => match fl.s {
                FS::Any => on(FS::Tagged(t, l, i)),
                FS::Enum(h, d) => on(FS::VTagged(h, t, l, i)),
                _ => Some(Fl { b: FB::Value(feed(start(), e)), s: fl.s }) },
            Ev::EnumBegin(t, l, i) => match fl.s {
                FS::Any => on(FS::Enum(seq![NCall::Enum(t, l, i)], false)),
                FS::Enum(h, d) => on(FS::Enum(h.push(NCall::Nested(t, l, i)), true)),
                _ => Some(Fl { b: FB::Value(feed(start(), e)), s: fl.s }) },
            Ev::MapKeyBegin => match fl.s { FS::Map(c, _) => on(FS::Map(c, true)), _ => None },
            Ev::MapValueBegin => match fl.s { FS::Map(c, _) => on(FS::Map(c, false)), _ => None },
            Ev::RecordValueBegin(t, l) => match fl.s { FS::Record(c, _) => on(FS::Record(c, Some((t, l)))), _ => None },
            Ev::TupleValueBegin(t, i) => match fl.s { FS::Tuple(c, _) => on(FS::Tuple(c, Some((t, i)))), _ => None },
            Ev::SeqEnd => match fl.s { FS::Seq(c) => on(FS::Done(c.push(NCall::End))), _ => None },
            Ev::MapEnd => match fl.s { FS::Map(c, _) => on(FS::Done(c.push(NCall::End))), _ => None },
            Ev::TupleEnd(..) => match fl.s { FS::Tuple(c, _) => on(FS::Done(c.push(NCall::End))), _ => None },
            Ev::RecordEnd(..) => match fl.s { FS::Record(c, _) => on(FS::Done(c.push(NCall::End))), _ => None },
            Ev::TaggedEnd(..) => match fl.s { FS::Done(c) => on(FS::Done(c)), _ => None },
            Ev::EnumEnd(..) => match fl.s { FS::Enum(h, _) => on(FS::Done(h.push(NCall::Empty))), FS::Done(c) => on(FS::Done(c)), _ => None },
            // SeqValueBegin, the ends of items
            _ => Some(fl),
        },
    } }
}
// calls a value can make in this state (text is only followed by more of it, ends fit their begins)
pub open spec fn calm(fl: Fl, e: Ev) -> bool {
    !(fl.s is Gone) && match fl.b {
        FB::None => true,
        FB::Text(_) => e is TextFragment || e is TextEnd,
        FB::Binary(_) => e is BinaryFragment || e is BinaryEnd,
        FB::Value(g) => fits(g, degr(e)) && !(fl.s is Any) && !(fl.s is Enum),
        FB::Wild => false,
    }
}
pub open spec fn steps(fl: Fl, e: Seq<Ev>) -> Option<Fl>
    decreases e.len(),
{ if e.len() == 0 { Some(fl) } else { match steps(fl, e.drop_last()) { Some(m) => nxt(m, e.last()), None => None } } }
pub open spec fn all_calm(fl: Fl, e: Seq<Ev>) -> bool
    decreases e.len(),
{ e.len() == 0 || (all_calm(fl, e.drop_last()) && (steps(fl, e.drop_last()) matches Some(m) ==> calm(m, e.last()))) }
pub open spec fn fresh() -> Fl { Fl { b: FB::None, s: FS::Any } }
// the calls that a whole value makes
pub open spec fn doc(e: Seq<Ev>) -> Option<Seq<NCall>> {
    match steps(fresh(), e) { Some(Fl { b: FB::None, s: FS::Done(c) }) => Some(c), _ => None }
}
pub open spec fn well(e: Seq<Ev>) -> bool { all_calm(fresh(), e) && (steps(fresh(), e) matches Some(z) ==> z.b is None) }
// a whole value in the state `fl`
pub open spec fn nxtv(fl: Fl, e: Seq<Ev>) -> Option<Fl> {
    match fl.b {
        FB::Value(g) => Some(Fl { b: FB::Value(run(g, e)), s: fl.s }),
        FB::None => match fl.s {
            FS::Enum(..) => steps(fl, e),
            FS::Any => match doc(e) { Some(c) => on(FS::Done(c)), None => None },
            _ => leaff(fl, seq![], norm(e)),
        },
        _ => None,
    }
}
pub open spec fn calmv(fl: Fl, e: Seq<Ev>) -> bool {
    !(fl.s is Gone) && match fl.b {
        FB::Value(g) => all_fit(g, e) && !(fl.s is Any) && !(fl.s is Enum),
        FB::None => match fl.s { FS::Enum(..) => all_calm(fl, e), FS::Any => well(e), _ => true },
        _ => false,
    }
}

// ---- values
pub trait Value { spec fn evs(&self) -> Seq<Ev>; spec fn fails(&self) -> bool; }
impl<'a, V: Value + ?Sized> Value for &'a V { open spec fn evs(&self) -> Seq<Ev> { (**self).evs() } open spec fn fails(&self) -> bool { (**self).fails() } }
pub struct Null;
impl Value for Null { open spec fn evs(&self) -> Seq<Ev> { seq![Ev::Null] } open spec fn fails(&self) -> bool { false } }
impl Value for str { open spec fn evs(&self) -> Seq<Ev> { text_evs(self@) } open spec fn fails(&self) -> bool { false } }
pub struct BinarySlice(pub [u8]);
impl BinarySlice {
    #[verifier::external_body]
    pub fn new(b: &[u8]) -> (r: &BinarySlice) ensures r.0@ == b@, { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.0@, { unimplemented!() }
}
impl Value for BinarySlice { open spec fn evs(&self) -> Seq<Ev> { binary_evs(self.0@) } open spec fn fails(&self) -> bool { false } }
impl Value for bool { open spec fn evs(&self) -> Seq<Ev> { seq![Ev::Bool(*self)] } open spec fn fails(&self) -> bool { false } }
impl Value for i8 { open spec fn evs(&self) -> Seq<Ev> { seq![Ev::I8(*self)] } open spec fn fails(&self) -> bool { false } }
impl Value for i16 { open spec fn evs(&self) -> Seq<Ev> { seq![Ev::I16(*self)] } open spec fn fails(&self) -> bool { false } }
impl Value for i32 { open spec fn evs(&self) -> Seq<Ev> { seq![Ev::I32(*self)] } open spec fn fails(&self) -> bool { false } }
impl Value for i64 { open spec fn evs(&self) -> Seq<Ev> { seq![Ev::I64(*self)] } open spec fn fails(&self) -> bool { false } }
impl Value for i128 { open spec fn evs(&self) -> Seq<Ev> { seq![Ev::I128(*self)] } open spec fn fails(&self) -> bool { false } }
impl Value for u8 { open spec fn evs(&self) -> Seq<Ev> { seq![Ev::U8(*self)] } open spec fn fails(&self) -> bool { false } }
impl Value for u16 { open spec fn evs(&self) -> Seq<Ev> { seq![Ev::U16(*self)] } open spec fn fails(&self) -> bool { false } }
impl Value for u32 { open spec fn evs(&self) -> Seq<Ev> { seq![Ev::U32(*self)] } open spec fn fails(&self) -> bool { false } }
impl Value for u64 { open spec fn evs(&self) -> Seq<Ev> { seq![Ev::U64(*self)] } open spec fn fails(&self) -> bool { false } }
impl Value for u128 { open spec fn evs(&self) -> Seq<Ev> { seq![Ev::U128(*self)] } open spec fn fails(&self) -> bool { false } }
impl Value for f32 { open spec fn evs(&self) -> Seq<Ev> { seq![Ev::F32(*self)] } open spec fn fails(&self) -> bool { false } }
impl Value for f64 { open spec fn evs(&self) -> Seq<Ev> { seq![Ev::F64(*self)] } open spec fn fails(&self) -> bool { false } }

pub mod sval_ref {
    use super::*;
    pub trait ValueRef<'sval>: Value {}
    impl<'a, 'sval, V: ValueRef<'sval> + ?Sized> ValueRef<'sval> for &'a V {}
    pub struct Ref<'sval, V: ?Sized>(pub &'sval V);
    impl<'sval, V: Value + ?Sized> Value for Ref<'sval, V> { open spec fn evs(&self) -> Seq<Ev> { self.0.evs() } open spec fn fails(&self) -> bool { self.0.fails() } }
    impl<'sval, V: Value + ?Sized> ValueRef<'sval> for Ref<'sval, V> {}
    pub fn to_ref<'sval, V: Value + ?Sized>(v: &'sval V) -> (r: Ref<'sval, V>) ensures r.0 == v, { Ref(v) }
    impl<'sval, V: ?Sized> Ref<'sval, V> { pub fn into_inner(&self) -> (r: &'sval V) ensures r == self.0, { self.0 } }
}
// ---- buffers (specs/buffer.rs, specs/fragments.rs prove these contracts of the real ones)
pub struct BufError;
pub mod mem { use super::*; #[verifier::external_body] pub fn take<T>(x: &mut T) -> (r: T) ensures r == *old(x), { unimplemented!() } }
#[verifier::external_body]
pub struct TextBuf<'sval> { x: &'sval u8 }
impl<'sval> TextBuf<'sval> {
    pub uninterp spec fn content(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.content() == Seq::<char>::empty(), { unimplemented!() }
    #[verifier::external_body] pub fn push_fragment(&mut self, f: &'sval str) -> (r: Result<(), BufError>) ensures r.is_ok(), (*final(self)).content() == (*old(self)).content() + f@, { unimplemented!() }
    #[verifier::external_body] pub fn push_fragment_computed(&mut self, f: &str) -> (r: Result<(), BufError>) ensures r.is_ok(), (*final(self)).content() == (*old(self)).content() + f@, { unimplemented!() }
    #[verifier::external_body] pub fn as_borrowed_str(&self) -> (r: Option<&'sval str>) ensures r matches Some(v) ==> v@ == self.content(), { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.content(), { unimplemented!() }
}
#[verifier::external_body]
pub struct BinaryBuf<'sval> { x: &'sval u8 }
impl<'sval> BinaryBuf<'sval> {
    pub uninterp spec fn content(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.content() == Seq::<u8>::empty(), { unimplemented!() }
    #[verifier::external_body] pub fn push_fragment(&mut self, f: &'sval [u8]) -> (r: Result<(), BufError>) ensures r.is_ok(), (*final(self)).content() == (*old(self)).content() + f@, { unimplemented!() }
    #[verifier::external_body] pub fn push_fragment_computed(&mut self, f: &[u8]) -> (r: Result<(), BufError>) ensures r.is_ok(), (*final(self)).content() == (*old(self)).content() + f@, { unimplemented!() }
    #[verifier::external_body] pub fn as_borrowed_slice(&self) -> (r: Option<&'sval [u8]>) ensures r matches Some(v) ==> v@ == self.content(), { unimplemented!() }
    #[verifier::external_body] pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.content(), { unimplemented!() }
}
#[verifier::external_body]
pub struct ValueBuf<'sval> { x: &'sval u8 }
impl<'sval> Value for ValueBuf<'sval> { uninterp spec fn evs(&self) -> Seq<Ev>; open spec fn fails(&self) -> bool { false } }
pub open spec fn told(a: ValueBuf, b: ValueBuf, ok: bool, e: Ev) -> bool { a.tame() && fits(a.g(), e) ==> ok && b.tame() && b.g() == feed(a.g(), e) }
pub open spec fn driven(a: ValueBuf, b: ValueBuf, ok: bool, e: Seq<Ev>, fails: bool) -> bool { a.tame() && all_fit(a.g(), e) ==> ok == !fails && (ok ==> b.tame() && b.g() == run(a.g(), e)) }
impl<'sval> ValueBuf<'sval> {
    pub uninterp spec fn tame(&self) -> bool;
    pub uninterp spec fn g(&self) -> Got;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.tame(), r.g() == start(), { unimplemented!() }
    #[verifier::external_body] pub fn into_err(self) -> Option<BufError> { unimplemented!() }
    // a complete buffer is a value of what it was told
    #[verifier::external_body] pub fn is_complete(&self) -> (r: bool)
        ensures self.tame() ==> (r ==> self.g().open.len() == 0 && idle(self.g())) && (self.g().open.len() == 0 && idle(self.g()) && self.g().evs.len() > 0 ==> r),
            self.tame() && r ==> lend(self.evs(), false) == self.g().evs, { unimplemented!() }
    #[verifier::external_body] pub fn null(&mut self) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::Null), { unimplemented!() }
    #[verifier::external_body] pub fn bool(&mut self, v: bool) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::Bool(v)), { unimplemented!() }
    #[verifier::external_body] pub fn i8(&mut self, v: i8) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::I8(v)), { unimplemented!() }
    #[verifier::external_body] pub fn i16(&mut self, v: i16) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::I16(v)), { unimplemented!() }
    #[verifier::external_body] pub fn i32(&mut self, v: i32) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::I32(v)), { unimplemented!() }
    #[verifier::external_body] pub fn i64(&mut self, v: i64) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::I64(v)), { unimplemented!() }
    #[verifier::external_body] pub fn i128(&mut self, v: i128) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::I128(v)), { unimplemented!() }
    #[verifier::external_body] pub fn u8(&mut self, v: u8) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::U8(v)), { unimplemented!() }
    #[verifier::external_body] pub fn u16(&mut self, v: u16) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::U16(v)), { unimplemented!() }
    #[verifier::external_body] pub fn u32(&mut self, v: u32) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::U32(v)), { unimplemented!() }
    #[verifier::external_body] pub fn u64(&mut self, v: u64) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::U64(v)), { unimplemented!() }
    #[verifier::external_body] pub fn u128(&mut self, v: u128) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::U128(v)), { unimplemented!() }
    #[verifier::external_body] pub fn f32(&mut self, v: f32) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::F32(v)), { unimplemented!() }
    #[verifier::external_body] pub fn f64(&mut self, v: f64) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::F64(v)), { unimplemented!() }
    #[verifier::external_body] pub fn text_begin(&mut self, n: Option<usize>) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::TextBegin(n)), { unimplemented!() }
    #[verifier::external_body] pub fn text_fragment(&mut self, f: &'sval str) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::TextFragment(f@, true)), { unimplemented!() }
    #[verifier::external_body] pub fn text_fragment_computed(&mut self, f: &str) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::TextFragment(f@, false)), { unimplemented!() }
    #[verifier::external_body] pub fn text_end(&mut self) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::TextEnd), { unimplemented!() }
    #[verifier::external_body] pub fn binary_begin(&mut self, n: Option<usize>) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::BinaryBegin(n)), { unimplemented!() }
    #[verifier::external_body] pub fn binary_fragment(&mut self, f: &'sval [u8]) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::BinaryFragment(f@, true)), { unimplemented!() }
    #[verifier::external_body] pub fn binary_fragment_computed(&mut self, f: &[u8]) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::BinaryFragment(f@, false)), { unimplemented!() }
    #[verifier::external_body] pub fn binary_end(&mut self) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::BinaryEnd), { unimplemented!() }
    #[verifier::external_body] pub fn tag(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::Tag(ot(tag), ol(label), oi(index))), { unimplemented!() }
    #[verifier::external_body] pub fn seq_begin(&mut self, n: Option<usize>) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::SeqBegin(n)), { unimplemented!() }
    #[verifier::external_body] pub fn map_begin(&mut self, n: Option<usize>) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::MapBegin(n)), { unimplemented!() }
    #[verifier::external_body] pub fn enum_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::EnumBegin(ot(tag), ol(label), oi(index))), { unimplemented!() }
    #[verifier::external_body] pub fn enum_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::EnumEnd(ot(tag), ol(label), oi(index))), { unimplemented!() }
    #[verifier::external_body] pub fn tagged_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::TaggedBegin(ot(tag), ol(label), oi(index))), { unimplemented!() }
    #[verifier::external_body] pub fn tagged_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::TaggedEnd(ot(tag), ol(label), oi(index))), { unimplemented!() }
    #[verifier::external_body] pub fn record_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>, n: Option<usize>) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::RecordBegin(ot(tag), ol(label), oi(index), n)), { unimplemented!() }
    #[verifier::external_body] pub fn record_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::RecordEnd(ot(tag), ol(label), oi(index))), { unimplemented!() }
    #[verifier::external_body] pub fn tuple_begin(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>, n: Option<usize>) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::TupleBegin(ot(tag), ol(label), oi(index), n)), { unimplemented!() }
    #[verifier::external_body] pub fn tuple_end(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::TupleEnd(ot(tag), ol(label), oi(index))), { unimplemented!() }
    #[verifier::external_body] pub fn record_value_begin(&mut self, tag: Option<&Tag>, label: &Label) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::RecordValueBegin(ot(tag), label@)), { unimplemented!() }
    #[verifier::external_body] pub fn record_value_end(&mut self, tag: Option<&Tag>, label: &Label) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::RecordValueEnd(ot(tag), label@)), { unimplemented!() }
    #[verifier::external_body] pub fn tuple_value_begin(&mut self, tag: Option<&Tag>, index: &Index) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::TupleValueBegin(ot(tag), index@)), { unimplemented!() }
    #[verifier::external_body] pub fn tuple_value_end(&mut self, tag: Option<&Tag>, index: &Index) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::TupleValueEnd(ot(tag), index@)), { unimplemented!() }
    #[verifier::external_body] pub fn seq_value_begin(&mut self) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::SeqValueBegin), { unimplemented!() }
    #[verifier::external_body] pub fn seq_value_end(&mut self) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::SeqValueEnd), { unimplemented!() }
    #[verifier::external_body] pub fn seq_end(&mut self) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::SeqEnd), { unimplemented!() }
    #[verifier::external_body] pub fn map_key_begin(&mut self) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::MapKeyBegin), { unimplemented!() }
    #[verifier::external_body] pub fn map_key_end(&mut self) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::MapKeyEnd), { unimplemented!() }
    #[verifier::external_body] pub fn map_value_begin(&mut self) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::MapValueBegin), { unimplemented!() }
    #[verifier::external_body] pub fn map_value_end(&mut self) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::MapValueEnd), { unimplemented!() }
    #[verifier::external_body] pub fn map_end(&mut self) -> (r: Result<()>) ensures told(*old(self), *final(self), r.is_ok(), Ev::MapEnd), { unimplemented!() }
    #[verifier::external_body] pub fn value<V: Value + ?Sized>(&mut self, v: &'sval V) -> (r: Result<()>) ensures driven(*old(self), *final(self), r.is_ok(), v.evs(), v.fails()), { unimplemented!() }
    #[verifier::external_body] pub fn value_computed<V: Value + ?Sized>(&mut self, v: &V) -> (r: Result<()>) ensures driven(*old(self), *final(self), r.is_ok(), lend(v.evs(), false), v.fails()), { unimplemented!() }
}
#[verifier::external_body]
pub fn unreached<T>() -> (r: T) requires false, { unimplemented!() }
pub fn cl_tag(o: Option<&Tag>) -> (r: Option<Tag>) ensures r == ot(o), { match o { Some(t) => Some(*t), None => None } }
#[verifier::external_body] pub fn cl_label<'a>(o: Option<&Label<'a>>) -> (r: Option<Label<'a>>) ensures olo(r) == ol(o), { unimplemented!() }
#[verifier::external_body] pub fn cl_index(o: Option<&Index>) -> (r: Option<Index>) ensures oio(r) == oi(o), { unimplemented!() }
impl Clone for Index { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@, { unimplemented!() } }
impl<'a> Label<'a> { #[verifier::external_body] pub fn to_owned(&self) -> (r: Label<'static>) ensures r@ == self@, { unimplemented!() } }
pub mod sval { pub use super::*; }
// any stream of events
pub trait Stream<'sval> {
    spec fn log(&self) -> Seq<Ev>;
    fn tag(&mut self, tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> (r: Result<()>) ensures r.is_ok() ==> (*final(self)).log() == (*old(self)).log() + lend(seq![Ev::Tag(ot(tag), ol(label), oi(index))], false);
    fn null(&mut self) -> (r: Result<()>) ensures r.is_ok() ==> (*final(self)).log() == (*old(self)).log() + lend(seq![Ev::Null], false);
    fn value<V: Value + ?Sized>(&mut self, v: &'sval V) -> (r: Result<()>) ensures r.is_ok() ==> (*final(self)).log() == (*old(self)).log() + lend(v.evs(), false);
    fn value_computed<V: Value + ?Sized>(&mut self, v: &V) -> (r: Result<()>) ensures r.is_ok() ==> (*final(self)).log() == (*old(self)).log() + lend(v.evs(), false);
}
pub uninterp spec fn widened(v: f32) -> f64;
#[verifier::external_body]
pub fn widen(v: f32) -> (r: f64) ensures r == widened(v), { v as f64 }
// numbers as text (specs/default_stream.rs)
pub trait Printed { spec fn digits(&self) -> Seq<Ev>; }
impl Printed for i128 { uninterp spec fn digits(&self) -> Seq<Ev>; }
impl Printed for u128 { uninterp spec fn digits(&self) -> Seq<Ev>; }

pub mod nested {
pub mod sval { pub use super::super::*; }
use super::{sval_ref, Value, NCall, made, norm, doc, well, lend, Ev, Tag, Label, Index, olo, oio};
use vstd::prelude::*;
pub struct Error;
pub type Result<T = (), E = Error> = core::result::Result<T, E>;
impl Error {
    #[verifier::external_body] pub fn invalid_value(msg: &'static str) -> Error { Error }
    #[verifier::external_body] pub fn buffer(e: sval::BufError) -> Error { Error }
}
pub trait StreamSeq<'sval>: Sized {
    type Ok;
    spec fn steady(&self) -> bool;
    spec fn calls(&self) -> Seq<NCall>;
    fn value<V: sval_ref::ValueRef<'sval>>(&mut self, value: V) -> (r: Result<()>)
        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push(NCall::Element(norm(value.evs()))), (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err();
    fn value_computed<V: Value>(&mut self, value: V) -> (r: Result<()>)
        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push(NCall::Element(norm(value.evs()))), (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err();
    fn end(self) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == self.calls().push(NCall::End), self.steady() && !false ==> r.is_ok();
}
pub trait StreamMap<'sval>: Sized {
    type Ok;
    spec fn steady(&self) -> bool;
    spec fn calls(&self) -> Seq<NCall>;
    fn key<V: sval_ref::ValueRef<'sval>>(&mut self, value: V) -> (r: Result<()>)
        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push(NCall::Key(norm(value.evs()))), (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err();
    fn key_computed<V: Value>(&mut self, value: V) -> (r: Result<()>)
        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push(NCall::Key(norm(value.evs()))), (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err();
    fn value<V: sval_ref::ValueRef<'sval>>(&mut self, value: V) -> (r: Result<()>)
        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push(NCall::Value(norm(value.evs()))), (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err();
    fn value_computed<V: Value>(&mut self, value: V) -> (r: Result<()>)
        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push(NCall::Value(norm(value.evs()))), (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err();
    fn end(self) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == self.calls().push(NCall::End), self.steady() && !false ==> r.is_ok();
}
pub trait StreamTuple<'sval>: Sized {
    type Ok;
    spec fn steady(&self) -> bool;
    spec fn calls(&self) -> Seq<NCall>;
    fn value<V: sval_ref::ValueRef<'sval>>(&mut self, tag: Option<Tag>, index: Index, value: V) -> (r: Result<()>)
        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push(NCall::TField(tag, index@, norm(value.evs()))), (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err();
    fn value_computed<V: Value>(&mut self, tag: Option<Tag>, index: Index, value: V) -> (r: Result<()>)
        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push(NCall::TField(tag, index@, norm(value.evs()))), (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err();
    fn end(self) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == self.calls().push(NCall::End), self.steady() && !false ==> r.is_ok();
}
pub trait StreamRecord<'sval>: Sized {
    type Ok;
    spec fn steady(&self) -> bool;
    spec fn calls(&self) -> Seq<NCall>;
    fn value<V: sval_ref::ValueRef<'sval>>(&mut self, tag: Option<Tag>, label: Label, value: V) -> (r: Result<()>)
        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push(NCall::RField(tag, label@, norm(value.evs()))), (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err();
    fn value_computed<V: Value>(&mut self, tag: Option<Tag>, label: Label, value: V) -> (r: Result<()>)
        ensures r.is_ok() ==> (*final(self)).calls() == (*old(self)).calls().push(NCall::RField(tag, label@, norm(value.evs()))), (*final(self)).steady() == (*old(self)).steady(), (*old(self)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err();
    fn end(self) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == self.calls().push(NCall::End), self.steady() && !false ==> r.is_ok();
}
pub trait StreamEnum<'sval>: Sized {
    type Ok;
    type Tuple: StreamTuple<'sval, Ok = Self::Ok>;
    type Record: StreamRecord<'sval, Ok = Self::Ok>;
    spec fn steady(&self) -> bool;
    spec fn head(&self) -> Seq<NCall>;
    fn tag(self, tag: Option<Tag>, label: Option<Label>, index: Option<Index>) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == self.head().push(NCall::Tag(tag, olo(label), oio(index))), self.steady() && !false ==> r.is_ok();
    fn tagged<V: sval_ref::ValueRef<'sval>>(self, tag: Option<Tag>, label: Option<Label>, index: Option<Index>, value: V) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == self.head().push(NCall::Tagged(tag, olo(label), oio(index), norm(value.evs()))), self.steady() && !value.fails() ==> r.is_ok();
    fn tagged_computed<V: Value>(self, tag: Option<Tag>, label: Option<Label>, index: Option<Index>, value: V) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == self.head().push(NCall::Tagged(tag, olo(label), oio(index), norm(value.evs()))), self.steady() && !value.fails() ==> r.is_ok();
    fn tuple_begin(self, tag: Option<Tag>, label: Option<Label>, index: Option<Index>, n: Option<usize>) -> (r: Result<Self::Tuple>)
        ensures r matches Ok(o) ==> o.calls() == self.head().push(NCall::Tuple(tag, olo(label), oio(index), n)) && (self.steady() ==> o.steady()), self.steady() ==> r.is_ok();
    fn record_begin(self, tag: Option<Tag>, label: Option<Label>, index: Option<Index>, n: Option<usize>) -> (r: Result<Self::Record>)
        ensures r matches Ok(o) ==> o.calls() == self.head().push(NCall::Record(tag, olo(label), oio(index), n)) && (self.steady() ==> o.steady()), self.steady() ==> r.is_ok();
}
pub trait Stream<'sval>: Sized {
    type Ok;
    type Seq: StreamSeq<'sval, Ok = Self::Ok>;
    type Map: StreamMap<'sval, Ok = Self::Ok>;
    type Tuple: StreamTuple<'sval, Ok = Self::Ok>;
    type Record: StreamRecord<'sval, Ok = Self::Ok>;
    type Enum: StreamEnum<'sval, Ok = Self::Ok>;
    spec fn steady(&self) -> bool;
    fn null(self) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::Null], self.steady() && !false ==> r.is_ok();
    fn bool(self, v: bool) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::Bool(v)], self.steady() && !false ==> r.is_ok();
    fn i8(self, v: i8) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::I8(v)], self.steady() && !false ==> r.is_ok();
    fn i16(self, v: i16) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::I16(v)], self.steady() && !false ==> r.is_ok();
    fn i32(self, v: i32) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::I32(v)], self.steady() && !false ==> r.is_ok();
    fn i64(self, v: i64) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::I64(v)], self.steady() && !false ==> r.is_ok();
    fn i128(self, v: i128) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::I128(v)], self.steady() && !false ==> r.is_ok();
    fn u8(self, v: u8) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::U8(v)], self.steady() && !false ==> r.is_ok();
    fn u16(self, v: u16) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::U16(v)], self.steady() && !false ==> r.is_ok();
    fn u32(self, v: u32) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::U32(v)], self.steady() && !false ==> r.is_ok();
    fn u64(self, v: u64) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::U64(v)], self.steady() && !false ==> r.is_ok();
    fn u128(self, v: u128) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::U128(v)], self.steady() && !false ==> r.is_ok();
    fn f32(self, v: f32) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::F32(v)], self.steady() && !false ==> r.is_ok();
    fn f64(self, v: f64) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::F64(v)], self.steady() && !false ==> r.is_ok();
    fn text(self, v: &'sval str) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::Text(v@)], self.steady() && !false ==> r.is_ok();
    fn text_computed(self, v: &str) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::Text(v@)], self.steady() && !false ==> r.is_ok();
    fn binary(self, v: &'sval [u8]) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::Binary(v@)], self.steady() && !false ==> r.is_ok();
    fn binary_computed(self, v: &[u8]) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::Binary(v@)], self.steady() && !false ==> r.is_ok();
    fn tag(self, tag: Option<Tag>, label: Option<Label>, index: Option<Index>) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::Tag(tag, olo(label), oio(index))], self.steady() && !false ==> r.is_ok();
    fn tagged<V: sval_ref::ValueRef<'sval>>(self, tag: Option<Tag>, label: Option<Label>, index: Option<Index>, value: V) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::Tagged(tag, olo(label), oio(index), norm(value.evs()))], self.steady() && !value.fails() ==> r.is_ok();
    fn tagged_computed<V: Value>(self, tag: Option<Tag>, label: Option<Label>, index: Option<Index>, value: V) -> (r: Result<Self::Ok>)
        ensures r matches Ok(o) ==> made(o) == seq![NCall::Tagged(tag, olo(label), oio(index), norm(value.evs()))], self.steady() && !value.fails() ==> r.is_ok();
    fn value<V: sval_ref::ValueRef<'sval>>(self, value: V) -> (r: Result<Self::Ok>)
        ensures well(value.evs()) ==> (r matches Ok(o) ==> doc(value.evs()) == Some(made(o))) && (self.steady() && !value.fails() && doc(value.evs()) is Some ==> r.is_ok()), value.fails() ==> r.is_err();
    fn value_computed<V: Value>(self, value: V) -> (r: Result<Self::Ok>)
        ensures well(value.evs()) ==> (r matches Ok(o) ==> doc(value.evs()) == Some(made(o))) && (self.steady() && !value.fails() && doc(value.evs()) is Some ==> r.is_ok()), value.fails() ==> r.is_err();
    fn value_ref<V: Value + ?Sized>(self, value: &'sval V) -> (r: Result<Self::Ok>)
        ensures well(value.evs()) ==> (r matches Ok(o) ==> doc(value.evs()) == Some(made(o))) && (self.steady() && !value.fails() && doc(value.evs()) is Some ==> r.is_ok()), value.fails() ==> r.is_err();
    fn seq_begin(self, n: Option<usize>) -> (r: Result<Self::Seq>)
        ensures r matches Ok(o) ==> o.calls() == seq![NCall::Seq(n)] && (self.steady() ==> o.steady()), self.steady() ==> r.is_ok();
    fn map_begin(self, n: Option<usize>) -> (r: Result<Self::Map>)
        ensures r matches Ok(o) ==> o.calls() == seq![NCall::Map(n)] && (self.steady() ==> o.steady()), self.steady() ==> r.is_ok();
    fn tuple_begin(self, tag: Option<Tag>, label: Option<Label>, index: Option<Index>, n: Option<usize>) -> (r: Result<Self::Tuple>)
        ensures r matches Ok(o) ==> o.calls() == seq![NCall::Tuple(tag, olo(label), oio(index), n)] && (self.steady() ==> o.steady()), self.steady() ==> r.is_ok();
    fn record_begin(self, tag: Option<Tag>, label: Option<Label>, index: Option<Index>, n: Option<usize>) -> (r: Result<Self::Record>)
        ensures r matches Ok(o) ==> o.calls() == seq![NCall::Record(tag, olo(label), oio(index), n)] && (self.steady() ==> o.steady()), self.steady() ==> r.is_ok();
    fn enum_begin(self, tag: Option<Tag>, label: Option<Label>, index: Option<Index>) -> (r: Result<Self::Enum>)
        ensures r matches Ok(o) ==> o.head() == seq![NCall::Enum(tag, olo(label), oio(index))] && (self.steady() ==> o.steady()), self.steady() ==> r.is_ok();
}
// enums queue their nested variants (specs/nested_enum.rs proves these contracts)
#[verifier::reject_recursive_types(S)]
#[verifier::external_body]
pub struct FlatStreamEnum<S>(core::marker::PhantomData<S>);
impl<'sval, S: StreamEnum<'sval>> FlatStreamEnum<S> {
    pub uninterp spec fn head(&self) -> Seq<NCall>;
    pub uninterp spec fn nested(&self) -> bool;
    pub uninterp spec fn steady(&self) -> bool;
    #[verifier::external_body] pub fn new(s: S) -> (r: Self) ensures r.head() == s.head(), !r.nested(), r.steady() == s.steady(), { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, tag: Option<Tag>, label: Option<Label>, index: Option<Index>) -> (r: Result<()>)
        ensures r.is_ok(), (*final(self)).head() == (*old(self)).head().push(NCall::Nested(tag, olo(label), oio(index))), (*final(self)).nested(), (*final(self)).steady() == (*old(self)).steady(), { unimplemented!() }
    #[verifier::external_body] pub fn end(self) -> (r: Result<S::Ok>)
        ensures r matches Ok(o) ==> made(o) == self.head().push(NCall::Empty), self.steady() && !false ==> r.is_ok(), { unimplemented!() }
    #[verifier::external_body] pub fn tag(self, tag: Option<Tag>, label: Option<Label>, index: Option<Index>) -> (r: Result<S::Ok>)
        ensures r matches Ok(o) ==> made(o) == self.head().push(NCall::Tag(tag, olo(label), oio(index))), self.steady() && !false ==> r.is_ok(), { unimplemented!() }
    #[verifier::external_body] pub fn tagged<V: sval_ref::ValueRef<'sval>>(self, tag: Option<Tag>, label: Option<Label>, index: Option<Index>, value: V) -> (r: Result<S::Ok>)
        ensures r matches Ok(o) ==> made(o) == self.head().push(NCall::Tagged(tag, olo(label), oio(index), norm(value.evs()))), self.steady() && !value.fails() ==> r.is_ok(), { unimplemented!() }
    #[verifier::external_body] pub fn tagged_computed<V: Value>(self, tag: Option<Tag>, label: Option<Label>, index: Option<Index>, value: V) -> (r: Result<S::Ok>)
        ensures r matches Ok(o) ==> made(o) == self.head().push(NCall::Tagged(tag, olo(label), oio(index), norm(value.evs()))), self.steady() && !value.fails() ==> r.is_ok(), { unimplemented!() }
    #[verifier::external_body] pub fn tuple_begin(self, tag: Option<Tag>, label: Option<Label>, index: Option<Index>, n: Option<usize>) -> (r: Result<S::Tuple>)
        ensures r matches Ok(o) ==> !self.nested() && o.calls() == self.head().push(NCall::Tuple(tag, olo(label), oio(index), n)) && (self.steady() ==> o.steady()), self.steady() && !self.nested() ==> r.is_ok(), { unimplemented!() }
    #[verifier::external_body] pub fn record_begin(self, tag: Option<Tag>, label: Option<Label>, index: Option<Index>, n: Option<usize>) -> (r: Result<S::Record>)
        ensures r matches Ok(o) ==> !self.nested() && o.calls() == self.head().push(NCall::Record(tag, olo(label), oio(index), n)) && (self.steady() ==> o.steady()), self.steady() && !self.nested() ==> r.is_ok(), { unimplemented!() }
}
#[verifier::external_body]
pub fn owned_label_ref(label: &Label) -> (r: Result<Label<'static>>) ensures r matches Ok(l) && l@ == label@, { unimplemented!() }

pub mod flat {
pub mod sval { pub use super::super::super::*; }
use super::super::{sval_ref, Value, NCall, made, norm, doc, well, lend, Ev, olo, oio, ot, ol, oi, FS, FB, Fl, leafv, leaff, nxt, nxtv, calm, calmv, steps, all_calm, told, driven, feed, fits, run, start, all_fit, idle, normal, feed_normal, run_normal, norm_lend,
    TextBuf, BinaryBuf, ValueBuf, cl_tag, cl_label, cl_index, unreached, mem, text_evs, computed_text_evs, binary_evs, Got, fresh, degr, ends, on, LabelV, IndexV};
use super::super::norms;
broadcast use norms;
use super::{Stream, StreamSeq, StreamMap, StreamTuple, StreamRecord, StreamEnum, FlatStreamEnum, Error, Result, owned_label_ref};
use core::marker::PhantomData;
use vstd::prelude::*;
//@use sval_nested | flat::FlatStream
//@use sval_nested | flat::State
//@use sval_nested | flat::Buffered
//@use sval_nested | flat::Any
//@use sval_nested | flat::Seq
//@use sval_nested | flat::Map
//@use sval_nested | flat::Record
//@use sval_nested | flat::Tuple
//@use sval_nested | flat::Tagged
//@use sval_nested | flat::Enum
//@use sval_nested | flat::EnumVariant

pub open spec fn tf(o: Option<(Option<sval::Tag>, sval::Index)>) -> Option<(Option<sval::Tag>, IndexV)> { match o { Some((t, i)) => Some((t, i@)), None => None } }
pub open spec fn rf(o: Option<(Option<sval::Tag>, sval::Label<'static>)>) -> Option<(Option<sval::Tag>, LabelV)> { match o { Some((t, i)) => Some((t, i@)), None => None } }
impl<'sval, S: Stream<'sval>> State<'sval, S> {
    pub open spec fn fs(&self) -> FS {
        match *self {
            State::Any(Some(_)) => FS::Any,
            State::Seq(Some(s)) => FS::Seq(s.stream.calls()),
            State::Map(Some(s)) => FS::Map(s.stream.calls(), s.is_key),
            State::Tagged(Some(s)) => FS::Tagged(s.tag, olo(s.label), oio(s.index)),
            State::Tuple(Some(s)) => FS::Tuple(s.stream.calls(), tf(s.field)),
            State::Record(Some(s)) => FS::Record(s.stream.calls(), rf(s.field)),
            State::Enum(Some(s)) => FS::Enum(s.stream.head(), s.stream.nested()),
            State::EnumVariant(Some(EnumVariant::Tagged(s))) => FS::VTagged(s.stream.head(), s.tag, olo(s.label), oio(s.index)),
            State::EnumVariant(Some(EnumVariant::Tuple(s))) => FS::Tuple(s.stream.calls(), tf(s.field)),
            State::EnumVariant(Some(EnumVariant::Record(s))) => FS::Record(s.stream.calls(), rf(s.field)),
            State::Done(Some(Ok(o))) => FS::Done(made(o)),
            State::Done(Some(Err(_))) => FS::Failed,
            _ => FS::Gone,
        }
    }
    // nothing behind it fails of its own accord
    pub open spec fn steady(&self) -> bool {
        match *self {
            State::Any(Some(s)) => s.stream.steady(),
            State::Seq(Some(s)) => s.stream.steady(),
            State::Map(Some(s)) => s.stream.steady(),
            State::Tagged(Some(s)) => s.stream.steady(),
            State::Tuple(Some(s)) => s.stream.steady(),
            State::Record(Some(s)) => s.stream.steady(),
            State::Enum(Some(s)) => s.stream.steady(),
            State::EnumVariant(Some(EnumVariant::Tagged(s))) => s.stream.steady(),
            State::EnumVariant(Some(EnumVariant::Tuple(s))) => s.stream.steady(),
            State::EnumVariant(Some(EnumVariant::Record(s))) => s.stream.steady(),
            _ => true,
        }
    }
}
pub open spec fn fb(b: Option<Buffered>) -> FB {
    match b {
        None => FB::None,
        Some(Buffered::Text(t)) => FB::Text(t.content()),
        Some(Buffered::Binary(t)) => FB::Binary(t.content()),
        Some(Buffered::Value(v)) => if v.tame() && normal(v.g()) { FB::Value(v.g()) } else { FB::Wild },
    }
}
impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
    pub open spec fn fl(&self) -> Fl { Fl { b: fb(self.buffered), s: self.state.fs() } }
}
// the contract of every event
pub open spec fn did<'sval, S: Stream<'sval>>(a: FlatStream<'sval, S>, z: FlatStream<'sval, S>, ok: bool, e: Ev) -> bool {
    &&& !ok ==> z.fl().s is Failed
    &&& ok && calm(a.fl(), e) ==> nxt(a.fl(), e) == Some(z.fl())
    &&& a.state.steady() && calm(a.fl(), e) && nxt(a.fl(), e) is Some ==> ok && z.state.steady()
}
pub open spec fn didv<'sval, S: Stream<'sval>>(a: FlatStream<'sval, S>, z: FlatStream<'sval, S>, ok: bool, e: Seq_<Ev>, fails: bool) -> bool {
    &&& !ok ==> z.fl().s is Failed
    &&& ok && calmv(a.fl(), e) ==> nxtv(a.fl(), e) == Some(z.fl())
    &&& a.state.steady() && calmv(a.fl(), e) && nxtv(a.fl(), e) is Some && !fails ==> ok && z.state.steady()
}
use vstd::seq::Seq as Seq_;
// a closure run on a buffer
#[verifier::prophetic]
pub open spec fn bstep<'a, C: FnOnce(&mut ValueBuf<'a>) -> sval::Result>(f: C, a: ValueBuf<'a>, z: ValueBuf<'a>, ok: bool) -> bool {
    exists|x: &mut ValueBuf<'a>, q: sval::Result| *x == a && *final(x) == z && #[trigger] f.ensures((x,), q) && q.is_ok() == ok
}
pub open spec fn berr<'a, C: FnOnce(&mut ValueBuf<'a>) -> sval::Result>(f: C, a: ValueBuf<'a>) -> bool {
    exists|x: &mut ValueBuf<'a>, q: sval::Result| *x == a && #[trigger] f.ensures((x,), q) && q is Err
}
#[verifier::prophetic]
pub open spec fn bnew<'a, C: FnOnce(&mut ValueBuf<'a>) -> sval::Result>(f: C, z: ValueBuf<'a>) -> bool {
    exists|x: &mut ValueBuf<'a>, q: sval::Result| x.tame() && x.g() == start() && *final(x) == z && #[trigger] f.ensures((x,), q) && q is Ok
}
pub open spec fn bnewerr<'a, C: FnOnce(&mut ValueBuf<'a>) -> sval::Result>(f: C) -> bool {
    exists|x: &mut ValueBuf<'a>, q: sval::Result| x.tame() && x.g() == start() && #[trigger] f.ensures((x,), q) && q is Err
}

//@fn sval_nested | flat::try_catch
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@spec
    requires forall|x: &mut FlatStream<'sval, S>| *x == *old(stream) ==> #[trigger] f.requires((x,)),
    ensures exists|x: &mut FlatStream<'sval, S>, q: Result<T>| *x == *old(stream) && #[trigger] f.ensures((x,), q)
        && (q matches Ok(v) ==> (r matches Ok(v2) && v2 == v) && *final(x) == *final(stream)) && (q is Err ==> r is Err),
        r is Err ==> final(stream).fl().s is Failed,
//@end
impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::buffer_or_with
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@closure 1
&mut FlatStream<'sval, S> -> (r: Result<()>)
    ensures match old($1).buffered {
        Some(Buffered::Value(b)) => (r is Ok ==> final($1).state == old($1).state && (final($1).buffered matches Some(Buffered::Value(z)) && bstep(buffer, b, z, true))) && (r is Err ==> berr(buffer, b)),
        _ => exists|x: &mut FlatStream<'sval, S>, q: Result<()>| *x == *old($1) && #[trigger] stream.ensures((x,), q) && (q is Ok ==> r is Ok && *final(x) == *final($1)) && (q is Err ==> r is Err),
    }
//@spec
    requires forall|x: &mut ValueBuf<'sval>| #[trigger] buffer.requires((x,)), forall|x: &mut FlatStream<'sval, S>| #[trigger] stream.requires((x,)),
    ensures match old(self).buffered {
        Some(Buffered::Value(b)) => (r is Ok ==> final(self).state == old(self).state && (final(self).buffered matches Some(Buffered::Value(z)) && bstep(buffer, b, z, true))) && (r is Err ==> berr(buffer, b)),
        _ => exists|x: &mut FlatStream<'sval, S>, q: Result<()>| *x == *old(self) && #[trigger] stream.ensures((x,), q) && (q is Ok ==> r is Ok && *final(x) == *final(self)) && (q is Err ==> r is Err),
    }, r is Err ==> final(self).fl().s is Failed,
//@end
// the same with a stream that answers with a value: what buffer_or_stream_with's closure writes to its `r`
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::buffer_or_with
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as buffer_or_with_ret
//@sub stream: impl FnOnce\(&mut Self\) -> Result\b(?!<) => stream: impl FnOnce(&mut Self) -> Result<Option<S::Ok>>
//@sub \(r: sval::Result\) => (r: sval::Result<Option<S::Ok>>)
//@sub \)\s*-> sval::Result\s*\{ => ) -> sval::Result<Option<S::Ok>> {
//@sub Ok\(\(\)\) => Ok(None)
//@closure 1
&mut FlatStream<'sval, S> -> (r: Result<Option<S::Ok>>)
    ensures match old($1).buffered {
        Some(Buffered::Value(b)) => (r is Ok ==> final($1).state == old($1).state && (final($1).buffered matches Some(Buffered::Value(z)) && bstep(buffer, b, z, true))) && (r is Err ==> berr(buffer, b)),
        _ => exists|x: &mut FlatStream<'sval, S>, q: Result<Option<S::Ok>>| *x == *old($1) && #[trigger] stream.ensures((x,), q) && (q matches Ok(o) ==> (r matches Ok(o2) && o2 == o) && *final(x) == *final($1)) && (q is Err ==> r is Err),
    }, old($1).buffered matches Some(Buffered::Value(_)) && r is Ok ==> (r matches Ok(None))
//@spec
    requires forall|x: &mut ValueBuf<'sval>| #[trigger] buffer.requires((x,)), forall|x: &mut FlatStream<'sval, S>| #[trigger] stream.requires((x,)),
    ensures match old(self).buffered {
        Some(Buffered::Value(b)) => (r is Ok ==> final(self).state == old(self).state && (final(self).buffered matches Some(Buffered::Value(z)) && bstep(buffer, b, z, true))) && (r is Err ==> berr(buffer, b)),
        _ => exists|x: &mut FlatStream<'sval, S>, q: Result<Option<S::Ok>>| *x == *old(self) && #[trigger] stream.ensures((x,), q) && (q matches Ok(o) ==> (r matches Ok(o2) && o2 == o) && *final(x) == *final(self)) && (q is Err ==> r is Err),
    },
        old(self).buffered matches Some(Buffered::Value(_)) && r is Ok ==> (r matches Ok(None)), r is Err ==> final(self).fl().s is Failed,
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::buffer_or_stream_with
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub let mut r = None; =>
//@sub (?s)self\.buffer_or_with\(buffer,\s*\|s\|\s*match stream\(s\) \{\s*Ok\(ok\)\s*=>\s*\{\s*r = ok;\s*Ok\(\(\)\)\s*\}\s*Err\(e\)\s*=>\s*Err\(e\),\s*\}\)\?; => let r = self.buffer_or_with_ret(buffer, stream)?;
//@spec
    requires forall|x: &mut ValueBuf<'sval>| #[trigger] buffer.requires((x,)), forall|x: &mut FlatStream<'sval, S>| #[trigger] stream.requires((x,)),
    ensures match old(self).buffered {
        Some(Buffered::Value(b)) => (r is Ok ==> final(self).state == old(self).state && (final(self).buffered matches Some(Buffered::Value(z)) && bstep(buffer, b, z, true))) && (r is Err ==> berr(buffer, b)),
        _ => exists|x: &mut FlatStream<'sval, S>, q: Result<Option<S::Ok>>| *x == *old(self) && #[trigger] stream.ensures((x,), q) && (q matches Ok(None) ==> r is Ok && *final(x) == *final(self)) && (q matches Ok(Some(o)) ==> r is Ok && final(self).buffered == final(x).buffered && (final(self).state matches State::Done(Some(Ok(o2))) && o2 == o)) && (q is Err ==> r is Err),
    },
        r is Err ==> final(self).fl().s is Failed,
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::buffer_or_begin_with
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub mut buffer: impl FnMut => buffer: impl Fn
//@closure 1
&mut FlatStream<'sval, S> -> (r: Result<Option<Buffered<'sval>>>)
    ensures match *old($1) {
        FlatStream { buffered: Some(Buffered::Value(b)), .. } => (r is Ok ==> (r matches Ok(None)) && final($1).state == old($1).state && (final($1).buffered matches Some(Buffered::Value(z)) && bstep(buffer, b, z, true))) && (r is Err ==> berr(buffer, b)),
        FlatStream { buffered: None, state: State::Any(Some(a)) } => exists|q: Result<State<'sval, S>>| #[trigger] transition_any.ensures((a,), q) && (q matches Ok(z) ==> r is Ok && (r matches Ok(None)) && final($1).state == z && final($1).buffered is None) && (q is Err ==> r is Err),
        FlatStream { buffered: None, state: State::Enum(Some(a)) } => exists|q: Result<State<'sval, S>>| #[trigger] transition_enum.ensures((a,), q) && (q matches Ok(z) ==> r is Ok && (r matches Ok(None)) && final($1).state == z && final($1).buffered is None) && (q is Err ==> r is Err),
        FlatStream { buffered: None, state: State::Any(None) } => r is Err,
        FlatStream { buffered: None, state: State::Enum(None) } => r is Err,
        FlatStream { buffered: None, .. } => (r is Ok ==> final($1).state == old($1).state && (r->Ok_0 matches Some(Buffered::Value(z)) && bnew(buffer, z)))
            && (r is Err ==> bnewerr(buffer)),
        _ => r is Err,
    }
//@spec
    requires forall|x: &mut ValueBuf<'sval>| #[trigger] buffer.requires((x,)), forall|x: Any<'sval, S>| #[trigger] transition_any.requires((x,)), forall|x: Enum<FlatStreamEnum<S::Enum>>| #[trigger] transition_enum.requires((x,)),
    ensures match *old(self) {
        FlatStream { buffered: Some(Buffered::Value(b)), .. } => (r is Ok ==> true && final(self).state == old(self).state && (final(self).buffered matches Some(Buffered::Value(z)) && bstep(buffer, b, z, true))) && (r is Err ==> berr(buffer, b)),
        FlatStream { buffered: None, state: State::Any(Some(a)) } => exists|q: Result<State<'sval, S>>| #[trigger] transition_any.ensures((a,), q) && (q matches Ok(z) ==> r is Ok && true && final(self).state == z && final(self).buffered is None) && (q is Err ==> r is Err),
        FlatStream { buffered: None, state: State::Enum(Some(a)) } => exists|q: Result<State<'sval, S>>| #[trigger] transition_enum.ensures((a,), q) && (q matches Ok(z) ==> r is Ok && true && final(self).state == z && final(self).buffered is None) && (q is Err ==> r is Err),
        FlatStream { buffered: None, state: State::Any(None) } => r is Err,
        FlatStream { buffered: None, state: State::Enum(None) } => r is Err,
        FlatStream { buffered: None, .. } => (r is Ok ==> final(self).state == old(self).state && (final(self).buffered matches Some(Buffered::Value(z)) && bnew(buffer, z)))
            && (r is Err ==> bnewerr(buffer)),
        _ => r is Err,
    },
        r is Err ==> final(self).fl().s is Failed,
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::buffer_or_end_with
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@closure 1
&mut FlatStream<'sval, S> -> (r: Result<Option<S::Ok>>)
    ensures match *old($1) {
        FlatStream { buffered: None, .. } => exists|x: &mut FlatStream<'sval, S>, q: Result<S::Ok>| *x == *old($1) && #[trigger] transition.ensures((x,), q) && (q matches Ok(o) ==> *final(x) == *final($1) && (r matches Ok(Some(o2)) && o2 == o)) && (q is Err ==> r is Err),
        FlatStream { buffered: Some(Buffered::Value(b)), state } => (r is Ok ==> exists|x: &mut ValueBuf<'sval>, q: sval::Result| #[trigger] buffer.ensures((x,), q) && q is Ok && *x == b && ({ let z = *final(x); z.tame() && normal(z.g()) ==>
                if z.g().open.len() == 0 && idle(z.g()) && z.g().evs.len() > 0 { !(state is Any) && !(state is Enum) ==> final($1).buffered is None && (match r { Ok(Some(o)) => leafv(state.fs(), seq![], z.g().evs) == Some(FS::Done(made(o))), _ => leafv(state.fs(), seq![], z.g().evs) == Some(final($1).state.fs()) && (state.steady() ==> final($1).state.steady()) }) }
                else if z.g().open.len() != 0 || !idle(z.g()) { final($1).state == state && final($1).buffered == Some(Buffered::Value(z)) && (r matches Ok(None)) } else { true } }))
            && (r is Err ==> exists|x: &mut ValueBuf<'sval>, q: sval::Result| #[trigger] buffer.ensures((x,), q) && *x == b && ({ let z = *final(x); z.tame() && normal(z.g()) && q is Ok && state.steady() && !(state is Any) ==> z.g().open.len() == 0 && idle(z.g()) && leafv(state.fs(), seq![], z.g().evs) is None })),
        _ => r is Err,
    }
//@sub \|(\w+),\s*(\w+)\|\s*\1\.value_computed\(\2\) => |\1: S, \2: &ValueBuf<'sval>| -> (q: Result<S::Ok>) { \1.value_computed(\2) }
//@spec
    requires forall|x: &mut ValueBuf<'sval>| #[trigger] buffer.requires((x,)), forall|x: &mut FlatStream<'sval, S>| #[trigger] transition.requires((x,)),
    ensures match *old(self) {
        FlatStream { buffered: None, .. } => exists|x: &mut FlatStream<'sval, S>, q: Result<S::Ok>| *x == *old(self) && #[trigger] transition.ensures((x,), q) && (q matches Ok(o) ==> r is Ok && final(x).buffered == final(self).buffered && (final(self).state matches State::Done(Some(Ok(o2))) && o2 == o)) && (q is Err ==> r is Err),
        FlatStream { buffered: Some(Buffered::Value(b)), state } => (r is Ok ==> exists|x: &mut ValueBuf<'sval>, q: sval::Result| #[trigger] buffer.ensures((x,), q) && q is Ok && *x == b && ({ let z = *final(x); z.tame() && normal(z.g()) ==>
                if z.g().open.len() == 0 && idle(z.g()) && z.g().evs.len() > 0 { !(state is Any) && !(state is Enum) ==> final(self).buffered is None && leafv(state.fs(), seq![], z.g().evs) == Some(final(self).state.fs()) && (state.steady() ==> final(self).state.steady()) }
                else if z.g().open.len() != 0 || !idle(z.g()) { final(self).state == state && final(self).buffered == Some(Buffered::Value(z))  } else { true } }))
            && (r is Err ==> exists|x: &mut ValueBuf<'sval>, q: sval::Result| #[trigger] buffer.ensures((x,), q) && *x == b && ({ let z = *final(x); z.tame() && normal(z.g()) && q is Ok && state.steady() && !(state is Any) ==> z.g().open.len() == 0 && idle(z.g()) && leafv(state.fs(), seq![], z.g().evs) is None })),
        _ => r is Err,
    },
        r is Err ==> final(self).fl().s is Failed,
//@end
}
impl<'sval, S: Stream<'sval>> State<'sval, S> {
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> State<'sval, S>}::value_with
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub ::core::panicking::unreachable_default_msg\(\) => unreached()
//@spec
    requires forall|a: S| #[trigger] any.requires((a,)), forall|a: S, b: Option<sval::Tag>, c: Option<sval::Label>, d: Option<sval::Index>| #[trigger] tagged.requires((a, b, c, d)),
        forall|x: &mut S::Seq| #[trigger] seq.requires((x,)), forall|x: &mut S::Map| #[trigger] map_key.requires((x,)), forall|x: &mut S::Map| #[trigger] map_value.requires((x,)),
        forall|x: &mut S::Tuple, b: Option<sval::Tag>, c: sval::Index| #[trigger] tuple.requires((x, b, c)), forall|x: &mut S::Record, b: Option<sval::Tag>, c: sval::Label| #[trigger] record.requires((x, b, c)),
        forall|a: FlatStreamEnum<S::Enum>, b: Option<sval::Tag>, c: Option<sval::Label>, d: Option<sval::Index>| #[trigger] tagged_variant.requires((a, b, c, d)),
        forall|x: &mut <S::Enum as StreamEnum<'sval>>::Tuple, b: Option<sval::Tag>, c: sval::Index| #[trigger] tuple_variant.requires((x, b, c)), forall|x: &mut <S::Enum as StreamEnum<'sval>>::Record, b: Option<sval::Tag>, c: sval::Label| #[trigger] record_variant.requires((x, b, c)),
    ensures match *old(self) {
        State::Any(Some(a)) => exists|q: Result<S::Ok>| #[trigger] any.ensures((a.stream,), q) && (q matches Ok(o) ==> (r matches Ok(Some(o2)) && o2 == o)) && (q is Err ==> r is Err),
        State::Tagged(Some(a)) => exists|q: Result<S::Ok>| #[trigger] tagged.ensures((a.stream, a.tag, a.label, a.index,), q) && (q matches Ok(o) ==> (r matches Ok(Some(o2)) && o2 == o)) && (q is Err ==> r is Err),
        State::Seq(Some(a)) => exists|x: &mut S::Seq, q: Result<()>| *x == a.stream && #[trigger] seq.ensures((x,), q) && (q is Ok ==> (r matches Ok(None)) && (*final(self) matches State::Seq(Some(z)) && z.stream == *final(x))) && (q is Err ==> r is Err),
        State::Map(Some(a)) => if a.is_key { exists|x: &mut S::Map, q: Result<()>| *x == a.stream && #[trigger] map_key.ensures((x,), q) && (q is Ok ==> (r matches Ok(None)) && (*final(self) matches State::Map(Some(z)) && z.stream == *final(x) && z.is_key == a.is_key)) && (q is Err ==> r is Err) } else { exists|x: &mut S::Map, q: Result<()>| *x == a.stream && #[trigger] map_value.ensures((x,), q) && (q is Ok ==> (r matches Ok(None)) && (*final(self) matches State::Map(Some(z)) && z.stream == *final(x) && z.is_key == a.is_key)) && (q is Err ==> r is Err) },
        State::Tuple(Some(Tuple { stream, field: Some((t, i)) })) => exists|x: &mut S::Tuple, q: Result<()>| *x == stream && #[trigger] tuple.ensures((x, t, i), q) && (q is Ok ==> (r matches Ok(None)) && (*final(self) matches State::Tuple(Some(z)) && z.stream == *final(x) && z.field is None)) && (q is Err ==> r is Err),
        State::Record(Some(Record { stream, field: Some((t, i)) })) => exists|x: &mut S::Record, q: Result<()>| *x == stream && #[trigger] record.ensures((x, t, i), q) && (q is Ok ==> (r matches Ok(None)) && (*final(self) matches State::Record(Some(z)) && z.stream == *final(x) && z.field is None)) && (q is Err ==> r is Err),
        State::EnumVariant(Some(EnumVariant::Tagged(a))) => exists|q: Result<S::Ok>| #[trigger] tagged_variant.ensures((a.stream, a.tag, a.label, a.index,), q) && (q matches Ok(o) ==> (r matches Ok(Some(o2)) && o2 == o)) && (q is Err ==> r is Err),
        State::EnumVariant(Some(EnumVariant::Tuple(Tuple { stream, field: Some((t, i)) }))) => exists|x: &mut <S::Enum as StreamEnum<'sval>>::Tuple, q: Result<()>| *x == stream && #[trigger] tuple_variant.ensures((x, t, i), q) && (q is Ok ==> (r matches Ok(None)) && (*final(self) matches State::EnumVariant(Some(EnumVariant::Tuple(z))) && z.stream == *final(x) && z.field is None)) && (q is Err ==> r is Err),
        State::EnumVariant(Some(EnumVariant::Record(Record { stream, field: Some((t, i)) }))) => exists|x: &mut <S::Enum as StreamEnum<'sval>>::Record, q: Result<()>| *x == stream && #[trigger] record_variant.ensures((x, t, i), q) && (q is Ok ==> (r matches Ok(None)) && (*final(self) matches State::EnumVariant(Some(EnumVariant::Record(z))) && z.stream == *final(x) && z.field is None)) && (q is Err ==> r is Err),
        _ => r is Err,
    },
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> State<'sval, S>}::value
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@closure 1
S -> (q: Result<S::Ok>)
    ensures any.ensures(($1, value), q)
===
&mut S::Seq -> (q: Result<()>)
    ensures q.is_ok() ==> (*final($1)).calls() == (*old($1)).calls().push(NCall::Element(norm(value.evs()))), (*final($1)).steady() == (*old($1)).steady(), (*old($1)).steady() && !value.fails() ==> q.is_ok()
===
&mut S::Map -> (q: Result<()>)
    ensures q.is_ok() ==> (*final($1)).calls() == (*old($1)).calls().push(NCall::Key(norm(value.evs()))), (*final($1)).steady() == (*old($1)).steady(), (*old($1)).steady() && !value.fails() ==> q.is_ok()
===
&mut S::Map -> (q: Result<()>)
    ensures q.is_ok() ==> (*final($1)).calls() == (*old($1)).calls().push(NCall::Value(norm(value.evs()))), (*final($1)).steady() == (*old($1)).steady(), (*old($1)).steady() && !value.fails() ==> q.is_ok()
//@closure 4
S; Option<sval::Tag>; Option<sval::Label>; Option<sval::Index> -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::Tagged($2, olo($3), oio($4), norm(value.evs()))], $1.steady() && !value.fails() ==> q.is_ok()
===
FlatStreamEnum<S::Enum>; Option<sval::Tag>; Option<sval::Label>; Option<sval::Index> -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == $1.head().push(NCall::Tagged($2, olo($3), oio($4), norm(value.evs()))), $1.steady() && !value.fails() ==> q.is_ok()
//@closure 3
&mut S::Tuple; Option<sval::Tag>; sval::Index -> (q: Result<()>)
    ensures q.is_ok() ==> (*final($1)).calls() == (*old($1)).calls().push(NCall::TField($2, $3@, norm(value.evs()))), (*final($1)).steady() == (*old($1)).steady(), (*old($1)).steady() && !value.fails() ==> q.is_ok()
===
&mut S::Record; Option<sval::Tag>; sval::Label -> (q: Result<()>)
    ensures q.is_ok() ==> (*final($1)).calls() == (*old($1)).calls().push(NCall::RField($2, $3@, norm(value.evs()))), (*final($1)).steady() == (*old($1)).steady(), (*old($1)).steady() && !value.fails() ==> q.is_ok()
===
&mut <S::Enum as StreamEnum<'sval>>::Tuple; Option<sval::Tag>; sval::Index -> (q: Result<()>)
    ensures q.is_ok() ==> (*final($1)).calls() == (*old($1)).calls().push(NCall::TField($2, $3@, norm(value.evs()))), (*final($1)).steady() == (*old($1)).steady(), (*old($1)).steady() && !value.fails() ==> q.is_ok()
===
&mut <S::Enum as StreamEnum<'sval>>::Record; Option<sval::Tag>; sval::Label -> (q: Result<()>)
    ensures q.is_ok() ==> (*final($1)).calls() == (*old($1)).calls().push(NCall::RField($2, $3@, norm(value.evs()))), (*final($1)).steady() == (*old($1)).steady(), (*old($1)).steady() && !value.fails() ==> q.is_ok()
//@spec
    requires forall|a: S| #[trigger] any.requires((a, value)),
    ensures match *old(self) {
        State::Any(Some(a)) => exists|q: Result<S::Ok>| #[trigger] any.ensures((a.stream, value), q) && (q matches Ok(o) ==> (r matches Ok(Some(o2)) && o2 == o)) && (q is Err ==> r is Err),
        _ => {
            &&& r matches Ok(None) ==> leafv(old(self).fs(), seq![], norm(value.evs())) == Some(final(self).fs())
            &&& r matches Ok(Some(o)) ==> leafv(old(self).fs(), seq![], norm(value.evs())) == Some(FS::Done(made(o)))
            &&& old(self).steady() && !value.fails() && leafv(old(self).fs(), seq![], norm(value.evs())) is Some ==> r is Ok && ((r matches Ok(None)) ==> final(self).steady())
        },
    },
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> State<'sval, S>}::value_computed
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@closure 1
S -> (q: Result<S::Ok>)
    ensures any.ensures(($1, value), q)
===
&mut S::Seq -> (q: Result<()>)
    ensures q.is_ok() ==> (*final($1)).calls() == (*old($1)).calls().push(NCall::Element(norm(value.evs()))), (*final($1)).steady() == (*old($1)).steady(), (*old($1)).steady() && !value.fails() ==> q.is_ok()
===
&mut S::Map -> (q: Result<()>)
    ensures q.is_ok() ==> (*final($1)).calls() == (*old($1)).calls().push(NCall::Key(norm(value.evs()))), (*final($1)).steady() == (*old($1)).steady(), (*old($1)).steady() && !value.fails() ==> q.is_ok()
===
&mut S::Map -> (q: Result<()>)
    ensures q.is_ok() ==> (*final($1)).calls() == (*old($1)).calls().push(NCall::Value(norm(value.evs()))), (*final($1)).steady() == (*old($1)).steady(), (*old($1)).steady() && !value.fails() ==> q.is_ok()
//@closure 4
S; Option<sval::Tag>; Option<sval::Label>; Option<sval::Index> -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::Tagged($2, olo($3), oio($4), norm(value.evs()))], $1.steady() && !value.fails() ==> q.is_ok()
===
FlatStreamEnum<S::Enum>; Option<sval::Tag>; Option<sval::Label>; Option<sval::Index> -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == $1.head().push(NCall::Tagged($2, olo($3), oio($4), norm(value.evs()))), $1.steady() && !value.fails() ==> q.is_ok()
//@closure 3
&mut S::Tuple; Option<sval::Tag>; sval::Index -> (q: Result<()>)
    ensures q.is_ok() ==> (*final($1)).calls() == (*old($1)).calls().push(NCall::TField($2, $3@, norm(value.evs()))), (*final($1)).steady() == (*old($1)).steady(), (*old($1)).steady() && !value.fails() ==> q.is_ok()
===
&mut S::Record; Option<sval::Tag>; sval::Label -> (q: Result<()>)
    ensures q.is_ok() ==> (*final($1)).calls() == (*old($1)).calls().push(NCall::RField($2, $3@, norm(value.evs()))), (*final($1)).steady() == (*old($1)).steady(), (*old($1)).steady() && !value.fails() ==> q.is_ok()
===
&mut <S::Enum as StreamEnum<'sval>>::Tuple; Option<sval::Tag>; sval::Index -> (q: Result<()>)
    ensures q.is_ok() ==> (*final($1)).calls() == (*old($1)).calls().push(NCall::TField($2, $3@, norm(value.evs()))), (*final($1)).steady() == (*old($1)).steady(), (*old($1)).steady() && !value.fails() ==> q.is_ok()
===
&mut <S::Enum as StreamEnum<'sval>>::Record; Option<sval::Tag>; sval::Label -> (q: Result<()>)
    ensures q.is_ok() ==> (*final($1)).calls() == (*old($1)).calls().push(NCall::RField($2, $3@, norm(value.evs()))), (*final($1)).steady() == (*old($1)).steady(), (*old($1)).steady() && !value.fails() ==> q.is_ok()
//@spec
    requires forall|a: S| #[trigger] any.requires((a, value)),
    ensures match *old(self) {
        State::Any(Some(a)) => exists|q: Result<S::Ok>| #[trigger] any.ensures((a.stream, value), q) && (q matches Ok(o) ==> (r matches Ok(Some(o2)) && o2 == o)) && (q is Err ==> r is Err),
        _ => {
            &&& r matches Ok(None) ==> leafv(old(self).fs(), seq![], norm(value.evs())) == Some(final(self).fs())
            &&& r matches Ok(Some(o)) ==> leafv(old(self).fs(), seq![], norm(value.evs())) == Some(FS::Done(made(o)))
            &&& old(self).steady() && !value.fails() && leafv(old(self).fs(), seq![], norm(value.evs())) is Some ==> r is Ok && ((r matches Ok(None)) ==> final(self).steady())
        },
    },
//@end
}

// what the closures for the stream do
pub open spec fn sdid<'sval, S: Stream<'sval>>(a: FlatStream<'sval, S>, z: FlatStream<'sval, S>, ok: bool, e: Ev) -> bool {
    !(a.buffered matches Some(Buffered::Value(_))) ==> {
        &&& ok && calm(a.fl(), e) ==> nxt(a.fl(), e) == Some(z.fl())
        &&& a.state.steady() && calm(a.fl(), e) && nxt(a.fl(), e) is Some ==> ok && z.state.steady()
    }
}
pub open spec fn odid<'sval, S: Stream<'sval>>(a: FlatStream<'sval, S>, z: FlatStream<'sval, S>, q: Result<Option<S::Ok>>, e: Ev) -> bool {
    !(a.buffered matches Some(Buffered::Value(_))) ==> {
        &&& calm(a.fl(), e) ==> match q { Ok(Some(o)) => nxt(a.fl(), e) == Some(Fl { b: z.fl().b, s: FS::Done(made(o)) }), Ok(None) => nxt(a.fl(), e) == Some(z.fl()), Err(_) => true }
        &&& a.state.steady() && calm(a.fl(), e) && nxt(a.fl(), e) is Some ==> q.is_ok() && ((q matches Ok(None)) ==> z.state.steady())
    }
}
pub open spec fn odidv<'sval, S: Stream<'sval>>(a: FlatStream<'sval, S>, z: FlatStream<'sval, S>, q: Result<Option<S::Ok>>, e: Seq_<Ev>, fails: bool) -> bool {
    !(a.buffered matches Some(Buffered::Value(_))) ==> {
        &&& calmv(a.fl(), e) ==> match q { Ok(Some(o)) => nxtv(a.fl(), e) == Some(Fl { b: z.fl().b, s: FS::Done(made(o)) }), Ok(None) => nxtv(a.fl(), e) == Some(z.fl()), Err(_) => true }
        &&& a.state.steady() && calmv(a.fl(), e) && nxtv(a.fl(), e) is Some && !fails ==> q.is_ok() && ((q matches Ok(None)) ==> z.state.steady())
    }
}
// a value makes the calls of its events (each is `did`)
pub open spec fn drove<'sval, S: Stream<'sval>>(a: FlatStream<'sval, S>, z: FlatStream<'sval, S>, ok: bool, e: Seq_<Ev>, fails: bool) -> bool {
    &&& ok && all_calm(a.fl(), e) ==> steps(a.fl(), e) == Some(z.fl())
    &&& a.state.steady() && all_calm(a.fl(), e) && steps(a.fl(), e) is Some && !fails ==> ok && z.state.steady()
}
pub mod default_stream {
    use super::*;
    #[verifier::external_body] pub fn value<'sval, S: Stream<'sval>, V: Value + ?Sized>(stream: &mut FlatStream<'sval, S>, v: &'sval V) -> (r: sval::Result)
        ensures drove(*old(stream), *final(stream), r.is_ok(), v.evs(), v.fails()), v.fails() ==> r.is_err(), { unimplemented!() }
    #[verifier::external_body] pub fn value_computed<'sval, S: Stream<'sval>, V: Value + ?Sized>(stream: &mut FlatStream<'sval, S>, v: &V) -> (r: sval::Result)
        ensures drove(*old(stream), *final(stream), r.is_ok(), v.evs(), v.fails()), v.fails() ==> r.is_err(), { unimplemented!() }
}
impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::new
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@spec
    ensures r.buffered is None, r.state matches State::Any(Some(a)) && a.stream == stream,
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::finish
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@spec
    ensures final(self).buffered == old(self).buffered, match old(self).state { State::Done(Some(q)) => r == q, _ => r is Err },
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::put_buffer
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@spec
    ensures match old(self).buffered { None => r is Ok && final(self).buffered == Some(buf) && final(self).state == old(self).state, Some(_) => r is Err },
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::with_text
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@spec
    requires forall|x: &mut TextBuf<'sval>| #[trigger] buffer.requires((x,)),
    ensures match old(self).buffered { Some(Buffered::Text(b)) => exists|x: &mut TextBuf<'sval>, q: Result<()>| *x == b && #[trigger] buffer.ensures((x,), q) && (q is Ok ==> r is Ok && final(self).state == old(self).state && final(self).buffered == Some(Buffered::Text(*final(x)))) && (q is Err ==> r is Err), _ => r is Err },
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::take_text
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@spec
    ensures match old(self).buffered { Some(Buffered::Text(b)) => (r matches Ok(b2) && b2 == b) && final(self).state == old(self).state && final(self).buffered is None, _ => r is Err },
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::with_binary
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@spec
    requires forall|x: &mut BinaryBuf<'sval>| #[trigger] buffer.requires((x,)),
    ensures match old(self).buffered { Some(Buffered::Binary(b)) => exists|x: &mut BinaryBuf<'sval>, q: Result<()>| *x == b && #[trigger] buffer.ensures((x,), q) && (q is Ok ==> r is Ok && final(self).state == old(self).state && final(self).buffered == Some(Buffered::Binary(*final(x)))) && (q is Err ==> r is Err), _ => r is Err },
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::take_binary
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@spec
    ensures match old(self).buffered { Some(Buffered::Binary(b)) => (r matches Ok(b2) && b2 == b) && final(self).state == old(self).state && final(self).buffered is None, _ => r is Err },
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::take_seq
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@spec
    ensures match *old(self) { FlatStream { buffered: None, state: State::Seq(Some(a)) } => (r matches Ok(b) && b == a) && final(self).buffered is None, _ => r is Err },
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::take_map
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@spec
    ensures match *old(self) { FlatStream { buffered: None, state: State::Map(Some(a)) } => (r matches Ok(b) && b == a) && final(self).buffered is None, _ => r is Err },
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::with_map
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@spec
    requires forall|x: &mut Map<S::Map>| #[trigger] f.requires((x,)),
    ensures match *old(self) { FlatStream { buffered: None, state: State::Map(Some(a)) } => exists|x: &mut Map<S::Map>, q: Result<()>| *x == a && #[trigger] f.ensures((x,), q) && (q is Ok ==> r is Ok && final(self).buffered is None && final(self).state == State::<'sval, S>::Map(Some(*final(x)))) && (q is Err ==> r is Err), _ => r is Err },
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::with_tuple
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@spec
    requires forall|x: &mut Tuple<S::Tuple>| #[trigger] tuple.requires((x,)), forall|x: &mut Tuple<<S::Enum as StreamEnum<'sval>>::Tuple>| #[trigger] tuple_variant.requires((x,)),
    ensures match *old(self) {
        FlatStream { buffered: None, state: State::Tuple(Some(a)) } => exists|x: &mut Tuple<S::Tuple>, q: Result<()>| *x == a && #[trigger] tuple.ensures((x,), q) && (q is Ok ==> r is Ok && final(self).buffered is None && final(self).state == State::<'sval, S>::Tuple(Some(*final(x)))) && (q is Err ==> r is Err),
        FlatStream { buffered: None, state: State::EnumVariant(Some(EnumVariant::Tuple(a))) } => exists|x: &mut Tuple<<S::Enum as StreamEnum<'sval>>::Tuple>, q: Result<()>| *x == a && #[trigger] tuple_variant.ensures((x,), q) && (q is Ok ==> r is Ok && final(self).buffered is None && final(self).state == State::<'sval, S>::EnumVariant(Some(EnumVariant::Tuple(*final(x))))) && (q is Err ==> r is Err),
        _ => r is Err,
    },
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::take_with_tuple
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@spec
    requires forall|x: Tuple<S::Tuple>| #[trigger] tuple.requires((x,)), forall|x: Tuple<<S::Enum as StreamEnum<'sval>>::Tuple>| #[trigger] tuple_variant.requires((x,)),
    ensures match *old(self) {
        FlatStream { buffered: None, state: State::Tuple(Some(a)) } => exists|q: Result<T>| #[trigger] tuple.ensures((a,), q) && (q matches Ok(o) ==> (r matches Ok(o2) && o2 == o) && final(self).buffered is None) && (q is Err ==> r is Err),
        FlatStream { buffered: None, state: State::EnumVariant(Some(EnumVariant::Tuple(a))) } => exists|q: Result<T>| #[trigger] tuple_variant.ensures((a,), q) && (q matches Ok(o) ==> (r matches Ok(o2) && o2 == o) && final(self).buffered is None) && (q is Err ==> r is Err),
        _ => r is Err,
    },
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::with_record
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@spec
    requires forall|x: &mut Record<S::Record>| #[trigger] record.requires((x,)), forall|x: &mut Record<<S::Enum as StreamEnum<'sval>>::Record>| #[trigger] record_variant.requires((x,)),
    ensures match *old(self) {
        FlatStream { buffered: None, state: State::Record(Some(a)) } => exists|x: &mut Record<S::Record>, q: Result<()>| *x == a && #[trigger] record.ensures((x,), q) && (q is Ok ==> r is Ok && final(self).buffered is None && final(self).state == State::<'sval, S>::Record(Some(*final(x)))) && (q is Err ==> r is Err),
        FlatStream { buffered: None, state: State::EnumVariant(Some(EnumVariant::Record(a))) } => exists|x: &mut Record<<S::Enum as StreamEnum<'sval>>::Record>, q: Result<()>| *x == a && #[trigger] record_variant.ensures((x,), q) && (q is Ok ==> r is Ok && final(self).buffered is None && final(self).state == State::<'sval, S>::EnumVariant(Some(EnumVariant::Record(*final(x))))) && (q is Err ==> r is Err),
        _ => r is Err,
    },
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::take_with_record
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@spec
    requires forall|x: Record<S::Record>| #[trigger] record.requires((x,)), forall|x: Record<<S::Enum as StreamEnum<'sval>>::Record>| #[trigger] record_variant.requires((x,)),
    ensures match *old(self) {
        FlatStream { buffered: None, state: State::Record(Some(a)) } => exists|q: Result<T>| #[trigger] record.ensures((a,), q) && (q matches Ok(o) ==> (r matches Ok(o2) && o2 == o) && final(self).buffered is None) && (q is Err ==> r is Err),
        FlatStream { buffered: None, state: State::EnumVariant(Some(EnumVariant::Record(a))) } => exists|q: Result<T>| #[trigger] record_variant.ensures((a,), q) && (q matches Ok(o) ==> (r matches Ok(o2) && o2 == o) && final(self).buffered is None) && (q is Err ==> r is Err),
        _ => r is Err,
    },
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::take_enum
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@spec
    ensures match *old(self) { FlatStream { buffered: None, state: State::Enum(a) } => (r matches Ok(b) && b == a) && final(self).buffered is None && (final(self).state matches State::Enum(None)), FlatStream { buffered: None, state: State::Done(_) } => (r matches Ok(None)) && *final(self) == *old(self), _ => r is Err },
//@end
}
impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::seq_value_begin
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::SeqValueBegin)
===
&mut FlatStream<'sval, S> -> (q: Result<()>)
    ensures sdid(*old($1), *final($1), q.is_ok(), Ev::SeqValueBegin)
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::SeqValueBegin),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::seq_value_end
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::SeqValueEnd)
===
&mut FlatStream<'sval, S> -> (q: Result<()>)
    ensures sdid(*old($1), *final($1), q.is_ok(), Ev::SeqValueEnd)
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::SeqValueEnd),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::map_key_end
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::MapKeyEnd)
===
&mut FlatStream<'sval, S> -> (q: Result<()>)
    ensures sdid(*old($1), *final($1), q.is_ok(), Ev::MapKeyEnd)
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::MapKeyEnd),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::map_value_end
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::MapValueEnd)
===
&mut FlatStream<'sval, S> -> (q: Result<()>)
    ensures sdid(*old($1), *final($1), q.is_ok(), Ev::MapValueEnd)
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::MapValueEnd),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::record_value_end
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::RecordValueEnd(ot(tag), label@))
===
&mut FlatStream<'sval, S> -> (q: Result<()>)
    ensures sdid(*old($1), *final($1), q.is_ok(), Ev::RecordValueEnd(ot(tag), label@))
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::RecordValueEnd(ot(tag), label@)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::tuple_value_end
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::TupleValueEnd(ot(tag), index@))
===
&mut FlatStream<'sval, S> -> (q: Result<()>)
    ensures sdid(*old($1), *final($1), q.is_ok(), Ev::TupleValueEnd(ot(tag), index@))
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::TupleValueEnd(ot(tag), index@)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::map_key_begin
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::MapKeyBegin)
===
&mut FlatStream<'sval, S> -> (q: Result<()>)
    ensures sdid(*old($1), *final($1), q.is_ok(), Ev::MapKeyBegin)
//@inner 1
&mut Map<S::Map> -> (q: Result<()>)
    ensures q is Ok, final($1).stream == old($1).stream, final($1).is_key == true
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::MapKeyBegin),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::map_value_begin
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::MapValueBegin)
===
&mut FlatStream<'sval, S> -> (q: Result<()>)
    ensures sdid(*old($1), *final($1), q.is_ok(), Ev::MapValueBegin)
//@inner 1
&mut Map<S::Map> -> (q: Result<()>)
    ensures q is Ok, final($1).stream == old($1).stream, final($1).is_key == false
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::MapValueBegin),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::tuple_value_begin
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::TupleValueBegin(ot(tag), index@))
===
&mut FlatStream<'sval, S> -> (q: Result<()>)
    ensures sdid(*old($1), *final($1), q.is_ok(), Ev::TupleValueBegin(ot(tag), index@))
//@inner 1
&mut Tuple<S::Tuple> -> (q: Result<()>)
    ensures q is Ok, final($1).stream == old($1).stream, final($1).field matches Some((t, i)) && t == ot(tag) && i@ == index@
===
&mut Tuple<<S::Enum as StreamEnum<'sval>>::Tuple> -> (q: Result<()>)
    ensures q is Ok, final($1).stream == old($1).stream, final($1).field matches Some((t, i)) && t == ot(tag) && i@ == index@
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::TupleValueBegin(ot(tag), index@)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::tuple_end
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::TupleEnd(ot(tag), ol(label), oi(index)))
===
&mut FlatStream<'sval, S> -> (q: Result<S::Ok>)
    ensures old($1).buffered is None ==> (q matches Ok(o) ==> nxt(old($1).fl(), Ev::TupleEnd(ot(tag), ol(label), oi(index))) == on(FS::Done(made(o))) && final($1).buffered is None) && (old($1).state.steady() && nxt(old($1).fl(), Ev::TupleEnd(ot(tag), ol(label), oi(index))) is Some ==> q is Ok)
//@inner 1
Tuple<S::Tuple> -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == $1.stream.calls().push(NCall::End), $1.stream.steady() ==> q.is_ok()
===
Tuple<<S::Enum as StreamEnum<'sval>>::Tuple> -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == $1.stream.calls().push(NCall::End), $1.stream.steady() ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::TupleEnd(ot(tag), ol(label), oi(index))),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::record_value_begin
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::RecordValueBegin(ot(tag), label@))
===
&mut FlatStream<'sval, S> -> (q: Result<()>)
    ensures sdid(*old($1), *final($1), q.is_ok(), Ev::RecordValueBegin(ot(tag), label@))
//@inner 1
&mut Record<S::Record> -> (q: Result<()>)
    ensures q is Ok, final($1).stream == old($1).stream, final($1).field matches Some((t, i)) && t == ot(tag) && i@ == label@
===
&mut Record<<S::Enum as StreamEnum<'sval>>::Record> -> (q: Result<()>)
    ensures q is Ok, final($1).stream == old($1).stream, final($1).field matches Some((t, i)) && t == ot(tag) && i@ == label@
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::RecordValueBegin(ot(tag), label@)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::record_end
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::RecordEnd(ot(tag), ol(label), oi(index)))
===
&mut FlatStream<'sval, S> -> (q: Result<S::Ok>)
    ensures old($1).buffered is None ==> (q matches Ok(o) ==> nxt(old($1).fl(), Ev::RecordEnd(ot(tag), ol(label), oi(index))) == on(FS::Done(made(o))) && final($1).buffered is None) && (old($1).state.steady() && nxt(old($1).fl(), Ev::RecordEnd(ot(tag), ol(label), oi(index))) is Some ==> q is Ok)
//@inner 1
Record<S::Record> -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == $1.stream.calls().push(NCall::End), $1.stream.steady() ==> q.is_ok()
===
Record<<S::Enum as StreamEnum<'sval>>::Record> -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == $1.stream.calls().push(NCall::End), $1.stream.steady() ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::RecordEnd(ot(tag), ol(label), oi(index))),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::seq_begin
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::SeqBegin(num_entries))
===
Any<'sval, S> -> (q: Result<State<'sval, S>>)
    ensures q matches Ok(z) ==> nxt(fresh(), Ev::SeqBegin(num_entries)) == on(z.fs()) && ($1.stream.steady() ==> z.steady()), $1.stream.steady() && nxt(fresh(), Ev::SeqBegin(num_entries)) is Some ==> q.is_ok()
===
Enum<FlatStreamEnum<S::Enum>> -> (q: Result<State<'sval, S>>)
    ensures q matches Ok(z) ==> nxt(Fl { b: FB::None, s: FS::Enum($1.stream.head(), $1.stream.nested()) }, Ev::SeqBegin(num_entries)) == on(z.fs()) && ($1.stream.steady() ==> z.steady()), $1.stream.steady() && nxt(Fl { b: FB::None, s: FS::Enum($1.stream.head(), $1.stream.nested()) }, Ev::SeqBegin(num_entries)) is Some ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::SeqBegin(num_entries)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::map_begin
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::MapBegin(num_entries))
===
Any<'sval, S> -> (q: Result<State<'sval, S>>)
    ensures q matches Ok(z) ==> nxt(fresh(), Ev::MapBegin(num_entries)) == on(z.fs()) && ($1.stream.steady() ==> z.steady()), $1.stream.steady() && nxt(fresh(), Ev::MapBegin(num_entries)) is Some ==> q.is_ok()
===
Enum<FlatStreamEnum<S::Enum>> -> (q: Result<State<'sval, S>>)
    ensures q matches Ok(z) ==> nxt(Fl { b: FB::None, s: FS::Enum($1.stream.head(), $1.stream.nested()) }, Ev::MapBegin(num_entries)) == on(z.fs()) && ($1.stream.steady() ==> z.steady()), $1.stream.steady() && nxt(Fl { b: FB::None, s: FS::Enum($1.stream.head(), $1.stream.nested()) }, Ev::MapBegin(num_entries)) is Some ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::MapBegin(num_entries)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::tuple_begin
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries))
===
Any<'sval, S> -> (q: Result<State<'sval, S>>)
    ensures q matches Ok(z) ==> nxt(fresh(), Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries)) == on(z.fs()) && ($1.stream.steady() ==> z.steady()), $1.stream.steady() && nxt(fresh(), Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries)) is Some ==> q.is_ok()
===
Enum<FlatStreamEnum<S::Enum>> -> (q: Result<State<'sval, S>>)
    ensures q matches Ok(z) ==> nxt(Fl { b: FB::None, s: FS::Enum($1.stream.head(), $1.stream.nested()) }, Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries)) == on(z.fs()) && ($1.stream.steady() ==> z.steady()), $1.stream.steady() && nxt(Fl { b: FB::None, s: FS::Enum($1.stream.head(), $1.stream.nested()) }, Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries)) is Some ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::TupleBegin(ot(tag), ol(label), oi(index), num_entries)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::record_begin
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries))
===
Any<'sval, S> -> (q: Result<State<'sval, S>>)
    ensures q matches Ok(z) ==> nxt(fresh(), Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries)) == on(z.fs()) && ($1.stream.steady() ==> z.steady()), $1.stream.steady() && nxt(fresh(), Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries)) is Some ==> q.is_ok()
===
Enum<FlatStreamEnum<S::Enum>> -> (q: Result<State<'sval, S>>)
    ensures q matches Ok(z) ==> nxt(Fl { b: FB::None, s: FS::Enum($1.stream.head(), $1.stream.nested()) }, Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries)) == on(z.fs()) && ($1.stream.steady() ==> z.steady()), $1.stream.steady() && nxt(Fl { b: FB::None, s: FS::Enum($1.stream.head(), $1.stream.nested()) }, Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries)) is Some ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::RecordBegin(ot(tag), ol(label), oi(index), num_entries)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::enum_begin
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::EnumBegin(ot(tag), ol(label), oi(index)))
===
Any<'sval, S> -> (q: Result<State<'sval, S>>)
    ensures q matches Ok(z) ==> nxt(fresh(), Ev::EnumBegin(ot(tag), ol(label), oi(index))) == on(z.fs()) && ($1.stream.steady() ==> z.steady()), $1.stream.steady() && nxt(fresh(), Ev::EnumBegin(ot(tag), ol(label), oi(index))) is Some ==> q.is_ok()
===
Enum<FlatStreamEnum<S::Enum>> -> (q: Result<State<'sval, S>>)
    ensures q matches Ok(z) ==> nxt(Fl { b: FB::None, s: FS::Enum($1.stream.head(), $1.stream.nested()) }, Ev::EnumBegin(ot(tag), ol(label), oi(index))) == on(z.fs()) && ($1.stream.steady() ==> z.steady()), $1.stream.steady() && nxt(Fl { b: FB::None, s: FS::Enum($1.stream.head(), $1.stream.nested()) }, Ev::EnumBegin(ot(tag), ol(label), oi(index))) is Some ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::EnumBegin(ot(tag), ol(label), oi(index))),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::tagged_begin
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::TaggedBegin(ot(tag), ol(label), oi(index)))
===
Any<'sval, S> -> (q: Result<State<'sval, S>>)
    ensures q matches Ok(z) ==> nxt(fresh(), Ev::TaggedBegin(ot(tag), ol(label), oi(index))) == on(z.fs()) && ($1.stream.steady() ==> z.steady()), $1.stream.steady() && nxt(fresh(), Ev::TaggedBegin(ot(tag), ol(label), oi(index))) is Some ==> q.is_ok()
===
Enum<FlatStreamEnum<S::Enum>> -> (q: Result<State<'sval, S>>)
    ensures q matches Ok(z) ==> nxt(Fl { b: FB::None, s: FS::Enum($1.stream.head(), $1.stream.nested()) }, Ev::TaggedBegin(ot(tag), ol(label), oi(index))) == on(z.fs()) && ($1.stream.steady() ==> z.steady()), $1.stream.steady() && nxt(Fl { b: FB::None, s: FS::Enum($1.stream.head(), $1.stream.nested()) }, Ev::TaggedBegin(ot(tag), ol(label), oi(index))) is Some ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::TaggedBegin(ot(tag), ol(label), oi(index))),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::seq_end
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::SeqEnd)
===
&mut FlatStream<'sval, S> -> (q: Result<S::Ok>)
    ensures old($1).buffered is None ==> (q matches Ok(o) ==> nxt(old($1).fl(), Ev::SeqEnd) == on(FS::Done(made(o))) && final($1).buffered is None) && (old($1).state.steady() && nxt(old($1).fl(), Ev::SeqEnd) is Some ==> q is Ok)
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::SeqEnd),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::map_end
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::MapEnd)
===
&mut FlatStream<'sval, S> -> (q: Result<S::Ok>)
    ensures old($1).buffered is None ==> (q matches Ok(o) ==> nxt(old($1).fl(), Ev::MapEnd) == on(FS::Done(made(o))) && final($1).buffered is None) && (old($1).state.steady() && nxt(old($1).fl(), Ev::MapEnd) is Some ==> q is Ok)
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::MapEnd),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::enum_end
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::EnumEnd(ot(tag), ol(label), oi(index)))
===
&mut FlatStream<'sval, S> -> (q: Result<S::Ok>)
    ensures old($1).buffered is None ==> (q matches Ok(o) ==> nxt(old($1).fl(), Ev::EnumEnd(ot(tag), ol(label), oi(index))) == on(FS::Done(made(o))) && final($1).buffered is None) && (old($1).state.steady() && nxt(old($1).fl(), Ev::EnumEnd(ot(tag), ol(label), oi(index))) is Some ==> q is Ok)
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::EnumEnd(ot(tag), ol(label), oi(index))),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::tagged_end
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::TaggedEnd(ot(tag), ol(label), oi(index)))
===
&mut FlatStream<'sval, S> -> (q: Result<S::Ok>)
    ensures old($1).buffered is None ==> (q matches Ok(o) ==> nxt(old($1).fl(), Ev::TaggedEnd(ot(tag), ol(label), oi(index))) == on(FS::Done(made(o))) && final($1).buffered is None) && (old($1).state.steady() && nxt(old($1).fl(), Ev::TaggedEnd(ot(tag), ol(label), oi(index))) is Some ==> q is Ok)
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::TaggedEnd(ot(tag), ol(label), oi(index))),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::bool
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::Bool(value))
===
&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)
    ensures odid(*old($1), *final($1), q, Ev::Bool(value))
//@inner 2
S; &bool -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::Bool(*$2)], $1.steady() ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::Bool(value)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::i8
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::I8(value))
===
&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)
    ensures odid(*old($1), *final($1), q, Ev::I8(value))
//@inner 2
S; &i8 -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::I8(*$2)], $1.steady() ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::I8(value)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::i16
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::I16(value))
===
&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)
    ensures odid(*old($1), *final($1), q, Ev::I16(value))
//@inner 2
S; &i16 -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::I16(*$2)], $1.steady() ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::I16(value)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::i32
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::I32(value))
===
&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)
    ensures odid(*old($1), *final($1), q, Ev::I32(value))
//@inner 2
S; &i32 -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::I32(*$2)], $1.steady() ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::I32(value)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::i64
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::I64(value))
===
&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)
    ensures odid(*old($1), *final($1), q, Ev::I64(value))
//@inner 2
S; &i64 -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::I64(*$2)], $1.steady() ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::I64(value)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::i128
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::I128(value))
===
&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)
    ensures odid(*old($1), *final($1), q, Ev::I128(value))
//@inner 2
S; &i128 -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::I128(*$2)], $1.steady() ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::I128(value)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::u8
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::U8(value))
===
&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)
    ensures odid(*old($1), *final($1), q, Ev::U8(value))
//@inner 2
S; &u8 -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::U8(*$2)], $1.steady() ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::U8(value)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::u16
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::U16(value))
===
&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)
    ensures odid(*old($1), *final($1), q, Ev::U16(value))
//@inner 2
S; &u16 -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::U16(*$2)], $1.steady() ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::U16(value)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::u32
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::U32(value))
===
&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)
    ensures odid(*old($1), *final($1), q, Ev::U32(value))
//@inner 2
S; &u32 -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::U32(*$2)], $1.steady() ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::U32(value)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::u64
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::U64(value))
===
&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)
    ensures odid(*old($1), *final($1), q, Ev::U64(value))
//@inner 2
S; &u64 -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::U64(*$2)], $1.steady() ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::U64(value)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::u128
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::U128(value))
===
&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)
    ensures odid(*old($1), *final($1), q, Ev::U128(value))
//@inner 2
S; &u128 -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::U128(*$2)], $1.steady() ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::U128(value)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::f32
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::F32(value))
===
&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)
    ensures odid(*old($1), *final($1), q, Ev::F32(value))
//@inner 2
S; &f32 -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::F32(*$2)], $1.steady() ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::F32(value)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::f64
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::F64(value))
===
&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)
    ensures odid(*old($1), *final($1), q, Ev::F64(value))
//@inner 2
S; &f64 -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::F64(*$2)], $1.steady() ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::F64(value)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::null
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::Null)
===
&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)
    ensures odid(*old($1), *final($1), q, Ev::Null)
//@inner 2
S; &sval_ref::Ref<'_, sval::Null> -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::Null], $1.steady() ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::Null),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::text_begin
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::TextBegin(size_hint))
===
&mut FlatStream<'sval, S> -> (q: Result<()>)
    ensures sdid(*old($1), *final($1), q.is_ok(), Ev::TextBegin(size_hint))
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::TextBegin(size_hint)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::text_fragment
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::TextFragment(fragment@, true))
===
&mut FlatStream<'sval, S> -> (q: Result<()>)
    ensures sdid(*old($1), *final($1), q.is_ok(), Ev::TextFragment(fragment@, true))
//@inner 1
&mut TextBuf<'sval> -> (q: Result<()>)
    ensures q is Ok, final($1).content() == old($1).content() + fragment@
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::TextFragment(fragment@, true)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::text_fragment_computed
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::TextFragment(fragment@, false))
===
&mut FlatStream<'sval, S> -> (q: Result<()>)
    ensures sdid(*old($1), *final($1), q.is_ok(), Ev::TextFragment(fragment@, false))
//@inner 1
&mut TextBuf<'sval> -> (q: Result<()>)
    ensures q is Ok, final($1).content() == old($1).content() + fragment@
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::TextFragment(fragment@, false)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::text_end
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::TextEnd)
===
&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)
    ensures odid(*old($1), *final($1), q, Ev::TextEnd)
//@inner 2
S; &sval_ref::Ref<'sval, str> -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::Text($2.0@)], $1.steady() ==> q.is_ok()
===
S; &str -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::Text($2@)], $1.steady() ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::TextEnd),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::binary_begin
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::BinaryBegin(size_hint))
===
&mut FlatStream<'sval, S> -> (q: Result<()>)
    ensures sdid(*old($1), *final($1), q.is_ok(), Ev::BinaryBegin(size_hint))
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::BinaryBegin(size_hint)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::binary_fragment
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::BinaryFragment(fragment@, true))
===
&mut FlatStream<'sval, S> -> (q: Result<()>)
    ensures sdid(*old($1), *final($1), q.is_ok(), Ev::BinaryFragment(fragment@, true))
//@inner 1
&mut BinaryBuf<'sval> -> (q: Result<()>)
    ensures q is Ok, final($1).content() == old($1).content() + fragment@
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::BinaryFragment(fragment@, true)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::binary_fragment_computed
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::BinaryFragment(fragment@, false))
===
&mut FlatStream<'sval, S> -> (q: Result<()>)
    ensures sdid(*old($1), *final($1), q.is_ok(), Ev::BinaryFragment(fragment@, false))
//@inner 1
&mut BinaryBuf<'sval> -> (q: Result<()>)
    ensures q is Ok, final($1).content() == old($1).content() + fragment@
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::BinaryFragment(fragment@, false)),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::binary_end
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::BinaryEnd)
===
&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)
    ensures odid(*old($1), *final($1), q, Ev::BinaryEnd)
//@inner 2
S; &sval_ref::Ref<'sval, sval::BinarySlice> -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::Binary($2.0.0@)], $1.steady() ==> q.is_ok()
===
S; &sval::BinarySlice -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::Binary($2.0@)], $1.steady() ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::BinaryEnd),
//@end
}

//@use sval_nested | flat::Tag
impl<'a> Value for Tag<'a> { closed spec fn evs(&self) -> Seq_<Ev> { seq![Ev::Tag(ot(self.0), ol(self.1), oi(self.2))] } open spec fn fails(&self) -> bool { false } }
impl<'a> Tag<'a> {
//@fn sval_nested | flat::{impl<'a> sval::Value for Tag<'a>}::stream
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@spec
    ensures r.is_ok() ==> (*final(stream)).log() == (*old(stream)).log() + lend(self.evs(), false),
//@end
}
impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::tag
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \btag\.cloned\(\) => cl_tag(tag)
//@sub \blabel\.cloned\(\) => cl_label(label)
//@sub \bindex\.cloned\(\) => cl_index(index)
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures told(*old($1), *final($1), q.is_ok(), Ev::Tag(ot(tag), ol(label), oi(index)))
===
&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)
    ensures odid(*old($1), *final($1), q, Ev::Tag(ot(tag), ol(label), oi(index)))
//@inner 2
S; &Tag -> (q: Result<S::Ok>)
    ensures q matches Ok(o) ==> made(o) == seq![NCall::Tag(ot(tag), ol(label), oi(index))], $1.steady() ==> q.is_ok()
//@spec
    ensures did(*old(self), *final(self), r.is_ok(), Ev::Tag(ot(tag), ol(label), oi(index))),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::value
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub sval::Stream::value\((\w+),\s*v\) => \1.value(v)
//@sub sval::default_stream::value\( => default_stream::value(
//@sub \|_\|\s*(Error::\w+\(\"[^\"]*\"\)) => |_e: sval::Error| -> (q: Error) { \1 }
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures driven(*old($1), *final($1), q.is_ok(), v.evs(), v.fails())
===
&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)
    ensures odidv(*old($1), *final($1), q, v.evs(), v.fails())
//@inner 2
S; &sval_ref::Ref<'sval, V> -> (q: Result<S::Ok>)
    ensures well(v.evs()) ==> (q matches Ok(o) ==> doc(v.evs()) == Some(made(o))) && ($1.steady() && !v.fails() && doc(v.evs()) is Some ==> q.is_ok())
//@spec
    ensures didv(*old(self), *final(self), r.is_ok(), v.evs(), v.fails()),
//@end
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> sval::Stream<'sval> for FlatStream<'sval, S>}::value_computed
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub sval::Stream::value_computed\((\w+),\s*v\) => \1.value_computed(v)
//@sub sval::default_stream::value_computed\( => default_stream::value_computed(
//@sub \|_\|\s*(Error::\w+\(\"[^\"]*\"\)) => |_e: sval::Error| -> (q: Error) { \1 }
//@closure 1
&mut ValueBuf<'sval> -> (q: sval::Result)
    ensures driven(*old($1), *final($1), q.is_ok(), lend(v.evs(), false), v.fails())
===
&mut FlatStream<'sval, S> -> (q: Result<Option<S::Ok>>)
    ensures odidv(*old($1), *final($1), q, v.evs(), v.fails())
//@inner 2
S; &V -> (q: Result<S::Ok>)
    ensures well(v.evs()) ==> (q matches Ok(o) ==> doc(v.evs()) == Some(made(o))) && ($1.steady() && !v.fails() && doc(v.evs()) is Some ==> q.is_ok())
//@spec
    ensures didv(*old(self), *final(self), r.is_ok(), v.evs(), v.fails()),
//@end
}
impl<'sval, S: Stream<'sval>> FlatStream<'sval, S> {
//@fn sval_nested | flat::{impl<'sval, S: Stream<'sval>> FlatStream<'sval, S>}::finish_with
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub \|_\|\s*(Error::\w+\("[^"]*"\)) => |_e: sval::Error| -> (q: Error) { \1 }
//@sub (fn finish_with\(&mut self,\s*)r: => \1r_:
//@sub \br\.map_err => r_.map_err
//@spec
    ensures match (old(self).state, r_) { (State::Done(Some(Ok(o))), Ok(_)) => r matches Ok(o2) && o2 == o, _ => r is Err },
//@end
}

#[verifier::external_body] pub fn stream_number<'sval, S: Stream<'sval>, N: sval::Printed>(stream: &mut FlatStream<'sval, S>, v: N) -> (r: sval::Result)
    ensures drove(*old(stream), *final(stream), r.is_ok(), v.digits(), false), { unimplemented!() }
#[verifier::external_body] pub fn stream_ref<'sval, S: Stream<'sval>, V: sval_ref::ValueRef<'sval>>(stream: &mut FlatStream<'sval, S>, v: V) -> (r: sval::Result)
    ensures drove(*old(stream), *final(stream), r.is_ok(), v.evs(), v.fails()), v.fails() ==> r.is_err(), { unimplemented!() }
}
pub mod dflt {
pub mod sval { pub use super::super::super::*; }
use super::super::{Value, NCall, made, norm, doc, well, Ev, olo, oio, ot, ol, oi, cl_tag, cl_label, widened, widen, text_evs, lend, Printed, tags};
use super::super::sval_ref::{self, ValueRef};
use super::{Stream, StreamSeq, StreamMap, StreamTuple, StreamRecord, StreamEnum, Error, Result};
use super::flat::{self, FlatStream};
use vstd::prelude::*;
//@fn sval_nested | default_stream::value
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_value
//@sub sval_ref::stream_ref => flat::stream_ref
//@spec
    ensures well(value.evs()) ==> (r matches Ok(o) ==> doc(value.evs()) == Some(made(o))) && (stream.steady() && !value.fails() && doc(value.evs()) is Some ==> r.is_ok()), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | default_stream::value_ref
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_value_ref
//@spec
    ensures well(value.evs()) ==> (r matches Ok(o) ==> doc(value.evs()) == Some(made(o))) && (stream.steady() && !value.fails() && doc(value.evs()) is Some ==> r.is_ok()), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | default_stream::value_computed
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_value_computed
//@sub sval::default_stream::value_computed => flat::default_stream::value_computed
//@spec
    ensures well(value.evs()) ==> (r matches Ok(o) ==> doc(value.evs()) == Some(made(o))) && (stream.steady() && !value.fails() && doc(value.evs()) is Some ==> r.is_ok()), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | default_stream::i8
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_i8
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::I16(value as i16)], stream.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | default_stream::i16
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_i16
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::I32(value as i32)], stream.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | default_stream::i32
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_i32
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::I64(value as i64)], stream.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | default_stream::u8
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_u8
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::U16(value as u16)], stream.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | default_stream::u16
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_u16
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::U32(value as u32)], stream.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | default_stream::u32
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_u32
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::U64(value as u64)], stream.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | default_stream::u64
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_u64
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::U128(value as u128)], stream.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | default_stream::i128
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_i128
//@sub sval::stream_number => flat::stream_number
//@spec
    ensures match r { Ok(o) => if i64::MIN <= value <= i64::MAX { made(o) == seq![NCall::I64(value as i64)] } else { well(value.digits()) ==> doc(value.digits()) == Some(made(o)) },
        Err(_) => stream.steady() ==> !(i64::MIN <= value <= i64::MAX) && (well(value.digits()) ==> doc(value.digits()) is None) },
//@end
//@fn sval_nested | default_stream::u128
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_u128
//@sub sval::stream_number => flat::stream_number
//@spec
    ensures match r { Ok(o) => if i64::MIN <= value <= i64::MAX { made(o) == seq![NCall::I64(value as i64)] } else { well(value.digits()) ==> doc(value.digits()) == Some(made(o)) },
        Err(_) => stream.steady() ==> !(i64::MIN <= value <= i64::MAX) && (well(value.digits()) ==> doc(value.digits()) is None) },
//@end
//@fn sval_nested | default_stream::f32
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_f32
//@sub \bvalue as f64 => widen(value)
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::F64(widened(value))], stream.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | default_stream::text
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_text
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::Text(text@)], stream.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | default_stream::binary
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_binary
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::Binary(binary@)], stream.steady() && !false ==> r.is_ok(),
//@end

pub open spec fn elements(b: Seq<u8>) -> Seq<NCall> { Seq::new(b.len(), |i: int| NCall::Element(norm(seq![Ev::U8(b[i])]))) }
//@fn sval_nested | default_stream::binary_computed
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_binary_computed
//@loop 0
    invariant
        seq.calls() == seq![NCall::Seq(Some(binary@.len() as usize))] + elements(binary@.take(it.index@)), stream.steady() ==> seq.steady(),
//@looptail 0
    proof { assert(seq![NCall::Seq(Some(binary@.len() as usize))] + elements(binary@.take(it.index@ + 1)) =~= (seq![NCall::Seq(Some(binary@.len() as usize))] + elements(binary@.take(it.index@))).push(NCall::Element(norm(seq![Ev::U8(*b)])))); }
//@spec
    ensures r matches Ok(o) ==> made(o) == (seq![NCall::Seq(Some(binary@.len() as usize))] + elements(binary@)).push(NCall::End), stream.steady() && !false ==> r.is_ok(),
//@end
//@use sval_nested | default_stream::tag::{body}::Tag
impl<'a> Value for Tag<'a> { closed spec fn evs(&self) -> Seq<Ev> { (if ot(self.tag) == Some(tags::RUST_OPTION_NONE) || ol(self.label) is None { seq![Ev::Null] } else { text_evs(ol(self.label).unwrap().text) }) } closed spec fn fails(&self) -> bool { false } }
impl<'a, 'sval> ValueRef<'sval> for Tag<'a> {}
//@fn sval_nested | default_stream::tag
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_tag
//@hoisted
//@sub \btag\.clone\(\) => cl_tag(tag.as_ref())
//@sub \blabel\.clone\(\) => cl_label(label.as_ref())
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::Tagged(tag, olo(label), oio(index), norm((if tag == Some(tags::RUST_OPTION_NONE) || olo(label) is None { seq![Ev::Null] } else { text_evs(olo(label).unwrap().text) })))], stream.steady() && !false ==> r.is_ok(),
//@end
impl<'a> Tag<'a> {
//@fn sval_nested | default_stream::tag::{body}::{impl<'a, 'sval> ValueRef<'sval> for Tag<'a>}::stream_ref
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub fn stream_ref<S => fn stream_ref<'sval, S
//@sub Some\(&sval::tags::RUST_OPTION_NONE\) = self\.tag => true = is_none_tag(self.tag)
//@spec
    ensures r.is_ok() ==> (*final(stream)).log() == (*old(stream)).log() + lend(self.evs(), false),
//@end
//@fn sval_nested | default_stream::tag::{body}::{impl<'a> sval::Value for Tag<'a>}::stream
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@sub fn stream<'sval => fn stream_<'sval
//@spec
    ensures r.is_ok() ==> (*final(stream)).log() == (*old(stream)).log() + lend(self.evs(), false),
//@end
}
pub fn is_none_tag(o: Option<&sval::Tag>) -> (r: bool) ensures r == (ot(o) == Some(tags::RUST_OPTION_NONE)), { match o { Some(t) => t.id == tags::RUST_OPTION_NONE.id, None => false } }
//@fn sval_nested | default_stream::tagged
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_tagged
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::Tagged(tag, olo(label), oio(index), norm(value.evs()))], stream.steady() && !value.fails() ==> r.is_ok(),
//@end
//@fn sval_nested | default_stream::tagged_ref
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_tagged_ref
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::Tagged(tag, olo(label), oio(index), norm(value.evs()))], stream.steady() && !value.fails() ==> r.is_ok(),
//@end
//@fn sval_nested | default_stream::tagged_computed
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_tagged_computed
//@spec
    ensures well(value.evs()) ==> (r matches Ok(o) ==> doc(value.evs()) == Some(made(o))) && (stream.steady() && !value.fails() && doc(value.evs()) is Some ==> r.is_ok()), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | default_stream::enum_tagged
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_enum_tagged
//@spec
    ensures r matches Ok(o) ==> made(o) == stream.head().push(NCall::Tagged(tag, olo(label), oio(index), norm(value.evs()))), stream.steady() && !value.fails() ==> r.is_ok(),
//@end
//@fn sval_nested | default_stream::enum_tagged_ref
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_enum_tagged_ref
//@spec
    ensures r matches Ok(o) ==> made(o) == stream.head().push(NCall::Tagged(tag, olo(label), oio(index), norm(value.evs()))), stream.steady() && !value.fails() ==> r.is_ok(),
//@end
//@fn sval_nested | default_stream::seq_value
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_seq_value
//@sub \+ \?Sized, V => , V
//@spec
    ensures r.is_ok() ==> (*final(seq)).calls() == (*old(seq)).calls().push(NCall::Element(norm(value.evs()))), (*final(seq)).steady() == (*old(seq)).steady(), (*old(seq)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | default_stream::map_key
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_map_key
//@sub \+ \?Sized, V => , V
//@spec
    ensures r.is_ok() ==> (*final(map)).calls() == (*old(map)).calls().push(NCall::Key(norm(key.evs()))), (*final(map)).steady() == (*old(map)).steady(), (*old(map)).steady() && !key.fails() ==> r.is_ok(), key.fails() ==> r.is_err(),
//@end
//@fn sval_nested | default_stream::map_value
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_map_value
//@sub \+ \?Sized, V => , V
//@spec
    ensures r.is_ok() ==> (*final(map)).calls() == (*old(map)).calls().push(NCall::Value(norm(value.evs()))), (*final(map)).steady() == (*old(map)).steady(), (*old(map)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | default_stream::tuple_value
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_tuple_value
//@sub \+ \?Sized, V => , V
//@spec
    ensures r.is_ok() ==> (*final(tuple)).calls() == (*old(tuple)).calls().push(NCall::TField(tag, index@, norm(value.evs()))), (*final(tuple)).steady() == (*old(tuple)).steady(), (*old(tuple)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | default_stream::record_value
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_record_value
//@sub \+ \?Sized, V => , V
//@spec
    ensures r.is_ok() ==> (*final(record)).calls() == (*old(record)).calls().push(NCall::RField(tag, label@, norm(value.evs()))), (*final(record)).steady() == (*old(record)).steady(), (*old(record)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | default_stream::seq_value_ref
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_seq_value_ref
//@sub \+ \?Sized, V => , V
//@spec
    ensures r.is_ok() ==> (*final(seq)).calls() == (*old(seq)).calls().push(NCall::Element(norm(value.evs()))), (*final(seq)).steady() == (*old(seq)).steady(), (*old(seq)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | default_stream::map_key_ref
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_map_key_ref
//@sub \+ \?Sized, V => , V
//@spec
    ensures r.is_ok() ==> (*final(map)).calls() == (*old(map)).calls().push(NCall::Key(norm(key.evs()))), (*final(map)).steady() == (*old(map)).steady(), (*old(map)).steady() && !key.fails() ==> r.is_ok(), key.fails() ==> r.is_err(),
//@end
//@fn sval_nested | default_stream::map_value_ref
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_map_value_ref
//@sub \+ \?Sized, V => , V
//@spec
    ensures r.is_ok() ==> (*final(map)).calls() == (*old(map)).calls().push(NCall::Value(norm(value.evs()))), (*final(map)).steady() == (*old(map)).steady(), (*old(map)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | default_stream::tuple_value_ref
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_tuple_value_ref
//@sub \+ \?Sized, V => , V
//@spec
    ensures r.is_ok() ==> (*final(tuple)).calls() == (*old(tuple)).calls().push(NCall::TField(tag, index@, norm(value.evs()))), (*final(tuple)).steady() == (*old(tuple)).steady(), (*old(tuple)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | default_stream::record_value_ref
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as d_record_value_ref
//@sub \+ \?Sized, V => , V
//@spec
    ensures r.is_ok() ==> (*final(record)).calls() == (*old(record)).calls().push(NCall::RField(tag, label@, norm(value.evs()))), (*final(record)).steady() == (*old(record)).steady(), (*old(record)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | Stream::value
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_value
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: Stream<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures well(value.evs()) ==> (r matches Ok(o) ==> doc(value.evs()) == Some(made(o))) && (self_.steady() && !value.fails() && doc(value.evs()) is Some ==> r.is_ok()), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | Stream::value_ref
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_value_ref
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: Stream<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures well(value.evs()) ==> (r matches Ok(o) ==> doc(value.evs()) == Some(made(o))) && (self_.steady() && !value.fails() && doc(value.evs()) is Some ==> r.is_ok()), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | Stream::value_computed
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_value_computed
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: Stream<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures well(value.evs()) ==> (r matches Ok(o) ==> doc(value.evs()) == Some(made(o))) && (self_.steady() && !value.fails() && doc(value.evs()) is Some ==> r.is_ok()), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | Stream::i8
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_i8
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: Stream<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::I16(value as i16)], self_.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | Stream::i16
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_i16
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: Stream<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::I32(value as i32)], self_.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | Stream::i32
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_i32
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: Stream<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::I64(value as i64)], self_.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | Stream::i128
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_i128
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: Stream<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures match r { Ok(o) => if i64::MIN <= value <= i64::MAX { made(o) == seq![NCall::I64(value as i64)] } else { well(value.digits()) ==> doc(value.digits()) == Some(made(o)) },
        Err(_) => self_.steady() ==> !(i64::MIN <= value <= i64::MAX) && (well(value.digits()) ==> doc(value.digits()) is None) },
//@end
//@fn sval_nested | Stream::u8
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_u8
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: Stream<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::U16(value as u16)], self_.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | Stream::u16
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_u16
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: Stream<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::U32(value as u32)], self_.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | Stream::u32
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_u32
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: Stream<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::U64(value as u64)], self_.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | Stream::u64
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_u64
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: Stream<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::U128(value as u128)], self_.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | Stream::u128
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_u128
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: Stream<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures match r { Ok(o) => if i64::MIN <= value <= i64::MAX { made(o) == seq![NCall::I64(value as i64)] } else { well(value.digits()) ==> doc(value.digits()) == Some(made(o)) },
        Err(_) => self_.steady() ==> !(i64::MIN <= value <= i64::MAX) && (well(value.digits()) ==> doc(value.digits()) is None) },
//@end
//@fn sval_nested | Stream::f32
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_f32
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: Stream<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::F64(widened(value))], self_.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | Stream::text
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_text
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: Stream<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::Text(text@)], self_.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | Stream::binary
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_binary
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: Stream<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::Binary(binary@)], self_.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | Stream::binary_computed
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_binary_computed
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: Stream<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r matches Ok(o) ==> made(o) == (seq![NCall::Seq(Some(binary@.len() as usize))] + elements(binary@)).push(NCall::End), self_.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | Stream::tag
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_tag
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: Stream<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::Tagged(tag, olo(label), oio(index), norm((if tag == Some(tags::RUST_OPTION_NONE) || olo(label) is None { seq![Ev::Null] } else { text_evs(olo(label).unwrap().text) })))], self_.steady() && !false ==> r.is_ok(),
//@end
//@fn sval_nested | Stream::tagged
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_tagged
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: Stream<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::Tagged(tag, olo(label), oio(index), norm(value.evs()))], self_.steady() && !value.fails() ==> r.is_ok(),
//@end
//@fn sval_nested | Stream::tagged_ref
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_tagged_ref
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: Stream<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: Stream<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r matches Ok(o) ==> made(o) == seq![NCall::Tagged(tag, olo(label), oio(index), norm(value.evs()))], self_.steady() && !value.fails() ==> r.is_ok(),
//@end
//@fn sval_nested | StreamSeq::value
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_seq_value
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: StreamSeq<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: StreamSeq<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: StreamSeq<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r.is_ok() ==> (*final(self_)).calls() == (*old(self_)).calls().push(NCall::Element(norm(value.evs()))), (*final(self_)).steady() == (*old(self_)).steady(), (*old(self_)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | StreamSeq::value_ref
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_seq_value_ref
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: StreamSeq<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: StreamSeq<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: StreamSeq<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r.is_ok() ==> (*final(self_)).calls() == (*old(self_)).calls().push(NCall::Element(norm(value.evs()))), (*final(self_)).steady() == (*old(self_)).steady(), (*old(self_)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | StreamMap::key
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_map_key
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: StreamMap<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: StreamMap<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: StreamMap<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r.is_ok() ==> (*final(self_)).calls() == (*old(self_)).calls().push(NCall::Key(norm(key.evs()))), (*final(self_)).steady() == (*old(self_)).steady(), (*old(self_)).steady() && !key.fails() ==> r.is_ok(), key.fails() ==> r.is_err(),
//@end
//@fn sval_nested | StreamMap::key_ref
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_map_key_ref
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: StreamMap<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: StreamMap<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: StreamMap<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r.is_ok() ==> (*final(self_)).calls() == (*old(self_)).calls().push(NCall::Key(norm(key.evs()))), (*final(self_)).steady() == (*old(self_)).steady(), (*old(self_)).steady() && !key.fails() ==> r.is_ok(), key.fails() ==> r.is_err(),
//@end
//@fn sval_nested | StreamMap::value
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_map_value
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: StreamMap<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: StreamMap<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: StreamMap<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r.is_ok() ==> (*final(self_)).calls() == (*old(self_)).calls().push(NCall::Value(norm(value.evs()))), (*final(self_)).steady() == (*old(self_)).steady(), (*old(self_)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | StreamMap::value_ref
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_map_value_ref
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: StreamMap<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: StreamMap<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: StreamMap<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r.is_ok() ==> (*final(self_)).calls() == (*old(self_)).calls().push(NCall::Value(norm(value.evs()))), (*final(self_)).steady() == (*old(self_)).steady(), (*old(self_)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | StreamTuple::value
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_tuple_value
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: StreamTuple<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: StreamTuple<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: StreamTuple<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r.is_ok() ==> (*final(self_)).calls() == (*old(self_)).calls().push(NCall::TField(tag, index@, norm(value.evs()))), (*final(self_)).steady() == (*old(self_)).steady(), (*old(self_)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | StreamTuple::value_ref
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_tuple_value_ref
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: StreamTuple<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: StreamTuple<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: StreamTuple<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r.is_ok() ==> (*final(self_)).calls() == (*old(self_)).calls().push(NCall::TField(tag, index@, norm(value.evs()))), (*final(self_)).steady() == (*old(self_)).steady(), (*old(self_)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | StreamRecord::value
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_record_value
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: StreamRecord<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: StreamRecord<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: StreamRecord<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r.is_ok() ==> (*final(self_)).calls() == (*old(self_)).calls().push(NCall::RField(tag, label@, norm(value.evs()))), (*final(self_)).steady() == (*old(self_)).steady(), (*old(self_)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | StreamRecord::value_ref
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_record_value_ref
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: StreamRecord<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: StreamRecord<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: StreamRecord<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r.is_ok() ==> (*final(self_)).calls() == (*old(self_)).calls().push(NCall::RField(tag, label@, norm(value.evs()))), (*final(self_)).steady() == (*old(self_)).steady(), (*old(self_)).steady() && !value.fails() ==> r.is_ok(), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | StreamEnum::tagged
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_enum_tagged
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: StreamEnum<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: StreamEnum<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: StreamEnum<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r matches Ok(o) ==> made(o) == self_.head().push(NCall::Tagged(tag, olo(label), oio(index), norm(value.evs()))), self_.steady() && !value.fails() ==> r.is_ok(),
//@end
//@fn sval_nested | StreamEnum::tagged_ref
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as p_enum_tagged_ref
//@sub fn (\w+)<(V: [^(]*)>\(\s*self\b => fn \1<'sval, S: StreamEnum<'sval>, \2>(self_: S
//@sub fn (\w+)\(\s*self\b => fn \1<'sval, S: StreamEnum<'sval>>(self_: S
//@sub fn (\w+)<(V: [^(]*)>\(\s*&mut self\b => fn \1<'sval, S: StreamEnum<'sval>, \2>(self_: &mut S
//@sub \bwhere\s+Self: Sized,? =>
//@sub \bSelf::Ok => S::Ok
//@sub default_stream:: => d_
//@sub \bself\b => self_
//@spec
    ensures r matches Ok(o) ==> made(o) == self_.head().push(NCall::Tagged(tag, olo(label), oio(index), norm(value.evs()))), self_.steady() && !value.fails() ==> r.is_ok(),
//@end
//@fn sval_nested | stream
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as e_stream
//@spec
    ensures well(value.evs()) ==> (r matches Ok(o) ==> doc(value.evs()) == Some(made(o))) && (stream.steady() && !value.fails() && doc(value.evs()) is Some ==> r.is_ok()), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | stream_ref
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as e_stream_ref
//@spec
    ensures well(value.evs()) ==> (r matches Ok(o) ==> doc(value.evs()) == Some(made(o))) && (stream.steady() && !value.fails() && doc(value.evs()) is Some ==> r.is_ok()), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | stream_computed
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@as e_stream_computed
//@spec
    ensures well(value.evs()) ==> (r matches Ok(o) ==> doc(value.evs()) == Some(made(o))) && (stream.steady() && !value.fails() && doc(value.evs()) is Some ==> r.is_ok()), value.fails() ==> r.is_err(),
//@end
//@fn sval_nested | owned_label_ref
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@spec
    ensures r matches Ok(l) && l@ == label@,
//@end
//@fn sval_nested | owned_label
//@sub \|(\w+): &mut FlatStream<'_, S>\| => |\1|
//@sub \|\|\s*\{ => || -> (q: Error) {
//@sub \|\|\s*(Error::\w+\("[^"]*"\)) => || -> (q: Error) { \1 }
//@sub \|\|\s*Err\((Error::\w+\("[^"]*"\))\) => || -> (q: Result<S::Ok>) ensures q is Err { Err(\1) }
//@spec
    ensures r matches Ok(l) && l@ == label@,
//@end
}
}
fn main() {}
}
