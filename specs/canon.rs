// What every event means in terms of the eleven events each stream must support, plus
// tagged values.  Written from the data model, not from the code.
pub ghost enum C {
    Null, Bool(bool), Int(int), F64(f64),
    TextBegin(Option<usize>), Text(Seq<char>), TextEnd,
    SeqBegin(Option<usize>), SeqValueBegin, SeqValueEnd, SeqEnd,
    TaggedBegin(Option<Tag>, Option<LabelV>, Option<IndexV>),
    TaggedEnd(Option<Tag>, Option<LabelV>, Option<IndexV>),
}

// The decimal digits of an integer, as the fragments `Display` writes them in.
pub uninterp spec fn c_digits(v: int) -> Seq<C>;
// An integer outside the 64bit signed range is an arbitrary precision number: tagged text.
pub open spec fn c_int(v: int) -> Seq<C> {
    if i64::MIN <= v <= i64::MAX { seq![C::Int(v)] }
    else { seq![C::TaggedBegin(Some(tags::NUMBER), None, None)] + c_digits(v) + seq![C::TaggedEnd(Some(tags::NUMBER), None, None)] }
}
pub uninterp spec fn widened(v: f32) -> f64;
// trusted: the exact widening cast (decided for every bit pattern by Kani, harness cast_f32)
#[verifier::external_body]
pub fn widen(v: f32) -> (r: f64)
    ensures r == widened(v),
{ v as f64 }

pub open spec fn c_bytes(b: Seq<u8>) -> Seq<C>
    decreases b.len(),
{
    if b.len() == 0 { seq![] } else { c_bytes(b.drop_last()) + seq![C::SeqValueBegin, C::Int(b.last() as int), C::SeqValueEnd] }
}
pub open spec fn c_text(s: Seq<char>) -> Seq<C> { seq![C::TextBegin(Some(utf8_len(s) as usize)), C::Text(s), C::TextEnd] }
pub open spec fn c_map_begin(n: Option<usize>) -> Seq<C> { seq![C::SeqBegin(n)] }
pub open spec fn c_key_begin() -> Seq<C> { seq![C::SeqValueBegin, C::TaggedBegin(None, None, None), C::SeqBegin(Some(2)), C::SeqValueBegin] }
pub open spec fn c_key_end() -> Seq<C> { seq![C::SeqValueEnd] }
pub open spec fn c_val_begin() -> Seq<C> { seq![C::SeqValueBegin] }
pub open spec fn c_val_end() -> Seq<C> { seq![C::SeqValueEnd, C::SeqEnd, C::TaggedEnd(None, None, None), C::SeqValueEnd] }
pub open spec fn c1(e: Ev) -> Seq<C> {
    match e {
        Ev::Null => seq![C::Null],
        Ev::Bool(b) => seq![C::Bool(b)],
        Ev::TextBegin(n) => seq![C::TextBegin(n)],
        Ev::TextFragment(s, _) => seq![C::Text(s)],
        Ev::TextEnd => seq![C::TextEnd],
        Ev::BinaryBegin(n) => seq![C::SeqBegin(n)],
        Ev::BinaryFragment(s, _) => c_bytes(s),
        Ev::BinaryEnd => seq![C::SeqEnd],
        Ev::U8(v) => c_int(v as int),
        Ev::U16(v) => c_int(v as int),
        Ev::U32(v) => c_int(v as int),
        Ev::U64(v) => c_int(v as int),
        Ev::U128(v) => c_int(v as int),
        Ev::I8(v) => c_int(v as int),
        Ev::I16(v) => c_int(v as int),
        Ev::I32(v) => c_int(v as int),
        Ev::I64(v) => c_int(v as int),
        Ev::I128(v) => c_int(v as int),
        Ev::F32(v) => seq![C::F64(widened(v))],
        Ev::F64(v) => seq![C::F64(v)],
        Ev::MapBegin(n) => c_map_begin(n),
        Ev::MapKeyBegin => c_key_begin(),
        Ev::MapKeyEnd => c_key_end(),
        Ev::MapValueBegin => c_val_begin(),
        Ev::MapValueEnd => c_val_end(),
        Ev::MapEnd => seq![C::SeqEnd],
        Ev::SeqBegin(n) => seq![C::SeqBegin(n)],
        Ev::SeqValueBegin => seq![C::SeqValueBegin],
        Ev::SeqValueEnd => seq![C::SeqValueEnd],
        Ev::SeqEnd => seq![C::SeqEnd],
        Ev::EnumBegin(t, l, i) => seq![C::TaggedBegin(t, l, i)],
        Ev::EnumEnd(t, l, i) => seq![C::TaggedEnd(t, l, i)],
        Ev::TaggedBegin(t, l, i) => seq![C::TaggedBegin(t, l, i)],
        Ev::TaggedEnd(t, l, i) => seq![C::TaggedEnd(t, l, i)],
        Ev::Tag(t, l, i) => seq![C::TaggedBegin(t, l, i)]
            + (if t == Some(tags::RUST_OPTION_NONE) || l.is_none() { seq![C::Null] } else { c_text(l.unwrap().text) })
            + seq![C::TaggedEnd(t, l, i)],
        Ev::TagHint(_) => seq![],
        Ev::RecordBegin(t, l, i, n) | Ev::RecordTupleBegin(t, l, i, n) => seq![C::TaggedBegin(t, l, i)] + c_map_begin(n),
        Ev::RecordValueBegin(_, l) | Ev::RecordTupleValueBegin(_, l, _) => c_key_begin() + c_text(l.text) + c_key_end() + c_val_begin(),
        Ev::RecordValueEnd(_, l) | Ev::RecordTupleValueEnd(_, l, _) => c_val_end(),
        Ev::RecordEnd(t, l, i) | Ev::RecordTupleEnd(t, l, i) => seq![C::SeqEnd, C::TaggedEnd(t, l, i)],
        Ev::TupleBegin(t, l, i, n) => seq![C::TaggedBegin(t, l, i), C::SeqBegin(n)],
        Ev::TupleValueBegin(_, _) => seq![C::SeqValueBegin],
        Ev::TupleValueEnd(_, _) => seq![C::SeqValueEnd],
        Ev::TupleEnd(t, l, i) => seq![C::SeqEnd, C::TaggedEnd(t, l, i)],
    }
}
pub open spec fn canon(s: Seq<Ev>) -> Seq<C>
    decreases s.len(),
{
    if s.len() == 0 { seq![] } else { canon(s.drop_last()) + c1(s.last()) }
}
pub broadcast proof fn canon_append(a: Seq<Ev>, b: Seq<Ev>)
    ensures #[trigger] canon(a + b) =~= canon(a) + canon(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        canon_append(a, b.drop_last());
    }
}
pub broadcast proof fn canon_push(a: Seq<Ev>, e: Ev)
    ensures #[trigger] canon(a.push(e)) =~= canon(a) + c1(e),
{
    assert(a.push(e).drop_last() =~= a);
}
pub broadcast proof fn canon_lend(a: Seq<Ev>, l: bool)
    ensures #[trigger] canon(lend(a, l)) =~= canon(a),
    decreases a.len(),
{
    if a.len() > 0 {
        canon_lend(a.drop_last(), l);
        assert(lend(a, l).drop_last() =~= lend(a.drop_last(), l));
    }
}
pub broadcast proof fn c_assoc(a: Seq<C>, b: Seq<C>, c: Seq<C>)
    ensures #[trigger] ((a + b) + c) =~= a + (b + c),
{ }
pub broadcast proof fn canon_text(s: Seq<char>)
    ensures #[trigger] canon(text_evs(s)) =~= c_text(s),
{
    reveal_with_fuel(canon, 4);
    assert(text_evs(s).drop_last() =~= seq![Ev::TextBegin(Some(utf8_len(s) as usize)), Ev::TextFragment(s, true)]);
    assert(text_evs(s).drop_last().drop_last() =~= seq![Ev::TextBegin(Some(utf8_len(s) as usize))]);
    assert(text_evs(s).drop_last().drop_last().drop_last() =~= seq![]);
}
pub broadcast proof fn canon_one(e: Ev)
    ensures #[trigger] canon(seq![e]) =~= c1(e),
{
    reveal_with_fuel(canon, 2);
    assert(seq![e].drop_last() =~= seq![]);
}
pub broadcast proof fn c_bytes_all(a: Seq<u8>, n: int)
    requires n == a.len(),
    ensures #[trigger] c_bytes(a.take(n)) == c_bytes(a),
{ assert(a.take(n) =~= a); }
pub proof fn c_bytes_push(a: Seq<u8>, b: u8)
    ensures c_bytes(a.push(b)) =~= c_bytes(a) + seq![C::SeqValueBegin, C::Int(b as int), C::SeqValueEnd],
{ assert(a.push(b).drop_last() =~= a); }

// `fmt::Display` of the standard library's integers prints exactly their digits: trusted.
pub trait Printed {
    spec fn printed(&self) -> Seq<C>;
}
impl Printed for u128 { open spec fn printed(&self) -> Seq<C> { c_digits(*self as int) } }
impl Printed for i128 { open spec fn printed(&self) -> Seq<C> { c_digits(*self as int) } }
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct Display<V> { value: V }
impl<V: Printed> Display<V> {
    #[verifier::external_body]
    pub fn new(value: V) -> (r: Self)
        ensures canon(r.evs()) == value.printed(),
    { unimplemented!() }
}
pub uninterp spec fn display_evs<V>(d: Display<V>) -> Seq<Ev>;
impl<V: Printed> Value for Display<V> {
    open spec fn evs(&self) -> Seq<Ev> { display_evs(*self) }
}

// The call stands for the event it was given.
pub open spec fn meant(old: St, new: St, r: Result, e: Ev) -> bool {
    &&& r.is_err() == new.broken
    &&& new.lends == old.lends
    &&& r.is_ok() ==> canon(new.log) =~= canon(old.log) + c1(e)
}

