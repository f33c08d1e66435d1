// What the types of the standard library stand for: the events each value streams.
macro_rules! one_event { ($($t:ty => $e:ident,)*) => { verus! { $(
    impl Value for $t { open spec fn evs(&self) -> Seq<Ev> { seq![Ev::$e(*self)] } }
)* } } }
one_event! {
    bool => Bool,
    u8 => U8, u16 => U16, u32 => U32, u64 => U64, u128 => U128,
    i8 => I8, i16 => I16, i32 => I32, i64 => I64, i128 => I128,
    f32 => F32, f64 => F64,
}
pub open spec fn unit_evs() -> Seq<Ev> { seq![Ev::Tag(Some(tags::RUST_UNIT), None, None)] }
impl Value for () { open spec fn evs(&self) -> Seq<Ev> { unit_evs() } }
pub struct Null;
impl Value for Null { open spec fn evs(&self) -> Seq<Ev> { seq![Ev::Null] } }

// A character is text of one character, encoded on the spot.
pub open spec fn computed_text_evs(s: Seq<char>) -> Seq<Ev> {
    seq![Ev::TextBegin(Some(utf8_len(s) as usize)), Ev::TextFragment(s, false), Ev::TextEnd]
}
impl Value for char { open spec fn evs(&self) -> Seq<Ev> { computed_text_evs(seq![*self]) } }
impl Value for String { open spec fn evs(&self) -> Seq<Ev> { text_evs(self@) } }

// `Some` and `None`.
pub open spec fn label_v(s: Seq<char>) -> LabelV { LabelV { text: s, tag: Some(tags::VALUE_IDENT) } }
pub open spec fn offset_v(n: int) -> IndexV { IndexV { num: n, tag: Some(tags::VALUE_OFFSET) } }
pub open spec fn some_evs(v: Seq<Ev>) -> Seq<Ev> {
    seq![Ev::TaggedBegin(Some(tags::RUST_OPTION_SOME), Some(label_v("Some"@)), Some(offset_v(1)))]
        + v + seq![Ev::TaggedEnd(Some(tags::RUST_OPTION_SOME), Some(label_v("Some"@)), Some(offset_v(1)))]
}
pub open spec fn none_evs() -> Seq<Ev> {
    seq![Ev::Tag(Some(tags::RUST_OPTION_NONE), Some(label_v("None"@)), Some(offset_v(0)))]
}
impl<T: Value> Value for Option<T> {
    open spec fn evs(&self) -> Seq<Ev> { match self { Some(v) => some_evs(v.evs()), None => none_evs() } }
}

// Binary content.
pub open spec fn binary_evs(b: Seq<u8>) -> Seq<Ev> {
    seq![Ev::BinaryBegin(Some(b.len() as usize)), Ev::BinaryFragment(b, true), Ev::BinaryEnd]
}
pub open spec fn fixed(evs: Seq<Ev>) -> Seq<Ev> {
    seq![Ev::TaggedBegin(Some(tags::CONSTANT_SIZE), None, None)] + evs + seq![Ev::TaggedEnd(Some(tags::CONSTANT_SIZE), None, None)]
}
pub struct BinarySlice(pub [u8]);
impl Value for BinarySlice { open spec fn evs(&self) -> Seq<Ev> { binary_evs(self.0@) } }
pub struct BinaryArray<const N: usize>(pub [u8; N]);
impl<const N: usize> Value for BinaryArray<N> { open spec fn evs(&self) -> Seq<Ev> { fixed(binary_evs(self.0@)) } }
impl BinarySlice {
    // a transparent wrapper: `&[u8]` and `&BinarySlice` are the same reference (unsafe in /repo)
    #[verifier::external_body]
    pub fn new<'a>(binary: &'a [u8]) -> (r: &'a BinarySlice) ensures r.0@ == binary@
    { unimplemented!() }
}

// Sequences: the elements in order.
pub open spec fn seq_items<T: Value>(s: Seq<T>) -> Seq<Ev>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        seq_items(s.drop_last()) + (seq![Ev::SeqValueBegin] + s.last().evs() + seq![Ev::SeqValueEnd])
    }
}
pub open spec fn seq_evs<T: Value>(s: Seq<T>) -> Seq<Ev> {
    seq![Ev::SeqBegin(Some(s.len() as usize))] + seq_items(s) + seq![Ev::SeqEnd]
}
impl<T: Value> Value for [T] { open spec fn evs(&self) -> Seq<Ev> { seq_evs(self@) } }
impl<T: Value> Value for Vec<T> { open spec fn evs(&self) -> Seq<Ev> { seq_evs(self@) } }
impl<T: Value, const N: usize> Value for [T; N] { open spec fn evs(&self) -> Seq<Ev> { fixed(seq_evs(self@)) } }

// Maps: the entries in the map's own order.
pub open spec fn map_items<K: Value, V: Value>(s: Seq<(K, V)>) -> Seq<Ev>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        map_items(s.drop_last())
            + (seq![Ev::MapKeyBegin] + s.last().0.evs() + seq![Ev::MapKeyEnd]
            + seq![Ev::MapValueBegin] + s.last().1.evs() + seq![Ev::MapValueEnd])
    }
}
pub open spec fn map_evs<K: Value, V: Value>(s: Seq<(K, V)>) -> Seq<Ev> {
    seq![Ev::MapBegin(Some(s.len() as usize))] + map_items(s) + seq![Ev::MapEnd]
}
pub struct MapSlice<K, V>(pub [(K, V)]);
impl<K: Value, V: Value> Value for MapSlice<K, V> { open spec fn evs(&self) -> Seq<Ev> { map_evs(self.0@) } }

pub proof fn seq_items_push<T: Value>(s: Seq<T>, v: T)
    ensures seq_items(s.push(v)) == seq_items(s) + (seq![Ev::SeqValueBegin] + v.evs() + seq![Ev::SeqValueEnd]),
{ assert(s.push(v).drop_last() =~= s); }
pub proof fn map_items_push<K: Value, V: Value>(s: Seq<(K, V)>, v: (K, V))
    ensures map_items(s.push(v)) == map_items(s)
        + (seq![Ev::MapKeyBegin] + v.0.evs() + seq![Ev::MapKeyEnd] + seq![Ev::MapValueBegin] + v.1.evs() + seq![Ev::MapValueEnd]),
{ assert(s.push(v).drop_last() =~= s); }

pub broadcast proof fn seq_items_all<T: Value>(s: Seq<T>, n: int)
    requires n == s.len(),
    ensures #[trigger] seq_items(s.take(n)) == seq_items(s),
{ assert(s.take(n) =~= s); }
pub broadcast proof fn map_items_all<K: Value, V: Value>(s: Seq<(K, V)>, n: int)
    requires n == s.len(),
    ensures #[trigger] map_items(s.take(n)) == map_items(s),
{ assert(s.take(n) =~= s); }
// one entry, seen from the log
pub proof fn map_step<K: Value, V: Value>(o: Seq<Ev>, x: Seq<Ev>, l: bool, s: Seq<(K, V)>, i: int)
    requires 0 <= i < s.len(),
    ensures ((((((o + lend(x + map_items(s.take(i)), l)) + seq![Ev::MapKeyBegin]) + lend(s[i].0.evs(), l)) + seq![Ev::MapKeyEnd])
        + seq![Ev::MapValueBegin]) + lend(s[i].1.evs(), l)) + seq![Ev::MapValueEnd] == o + lend(x + map_items(s.take(i + 1)), l),
{
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    map_items_push(s.take(i), s[i]);
    let y = x + map_items(s.take(i));
    let kv = seq![Ev::MapKeyBegin] + s[i].0.evs() + seq![Ev::MapKeyEnd] + seq![Ev::MapValueBegin] + s[i].1.evs() + seq![Ev::MapValueEnd];
    assert(x + map_items(s.take(i + 1)) =~= y + kv);
    assert(((((o + lend(y, l)) + seq![Ev::MapKeyBegin]) + lend(s[i].0.evs(), l)) + seq![Ev::MapKeyEnd])
        =~= o + lend(y + (seq![Ev::MapKeyBegin] + s[i].0.evs() + seq![Ev::MapKeyEnd]), l));
    let z = y + (seq![Ev::MapKeyBegin] + s[i].0.evs() + seq![Ev::MapKeyEnd]);
    assert((((o + lend(z, l)) + seq![Ev::MapValueBegin]) + lend(s[i].1.evs(), l)) + seq![Ev::MapValueEnd]
        =~= o + lend(z + (seq![Ev::MapValueBegin] + s[i].1.evs() + seq![Ev::MapValueEnd]), l));
    assert(z + (seq![Ev::MapValueBegin] + s[i].1.evs() + seq![Ev::MapValueEnd]) =~= y + kv);
}
pub proof fn map_ends<K: Value, V: Value>(o: Seq<Ev>, l: bool, s: Seq<(K, V)>)
    ensures
        o + seq![Ev::MapBegin(Some(s.len() as usize))] == o + lend(seq![Ev::MapBegin(Some(s.len() as usize))] + map_items(s.take(0)), l),
        (o + lend(seq![Ev::MapBegin(Some(s.len() as usize))] + map_items(s.take(s.len() as int)), l)) + seq![Ev::MapEnd] == o + lend(map_evs(s), l),
{
    assert(s.take(0) =~= Seq::empty());
    assert(seq![Ev::MapBegin(Some(s.len() as usize))] =~= lend(seq![Ev::MapBegin(Some(s.len() as usize))] + map_items(s.take(0)), l));
    assert(s.take(s.len() as int) =~= s);
    assert((o + lend(seq![Ev::MapBegin(Some(s.len() as usize))] + map_items(s), l)) + seq![Ev::MapEnd] =~= o + lend(map_evs(s), l));
}
