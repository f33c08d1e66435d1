// The events of the data model, one for each method of `Stream`.  The flag of a
// fragment says whether it was lent for the lifetime of the whole stream.
pub ghost enum Ev {
    Null,
    Bool(bool),
    TextBegin(Option<usize>),
    TextFragment(Seq<char>, bool),
    TextEnd,
    BinaryBegin(Option<usize>),
    BinaryFragment(Seq<u8>, bool),
    BinaryEnd,
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    F32(f32),
    F64(f64),
    MapBegin(Option<usize>),
    MapKeyBegin,
    MapKeyEnd,
    MapValueBegin,
    MapValueEnd,
    MapEnd,
    SeqBegin(Option<usize>),
    SeqValueBegin,
    SeqValueEnd,
    SeqEnd,
    EnumBegin(Option<Tag>, Option<LabelV>, Option<IndexV>),
    EnumEnd(Option<Tag>, Option<LabelV>, Option<IndexV>),
    TaggedBegin(Option<Tag>, Option<LabelV>, Option<IndexV>),
    TaggedEnd(Option<Tag>, Option<LabelV>, Option<IndexV>),
    Tag(Option<Tag>, Option<LabelV>, Option<IndexV>),
    TagHint(Tag),
    RecordBegin(Option<Tag>, Option<LabelV>, Option<IndexV>, Option<usize>),
    RecordValueBegin(Option<Tag>, LabelV),
    RecordValueEnd(Option<Tag>, LabelV),
    RecordEnd(Option<Tag>, Option<LabelV>, Option<IndexV>),
    TupleBegin(Option<Tag>, Option<LabelV>, Option<IndexV>, Option<usize>),
    TupleValueBegin(Option<Tag>, IndexV),
    TupleValueEnd(Option<Tag>, IndexV),
    TupleEnd(Option<Tag>, Option<LabelV>, Option<IndexV>),
    RecordTupleBegin(Option<Tag>, Option<LabelV>, Option<IndexV>, Option<usize>),
    RecordTupleValueBegin(Option<Tag>, LabelV, IndexV),
    RecordTupleValueEnd(Option<Tag>, LabelV, IndexV),
    RecordTupleEnd(Option<Tag>, Option<LabelV>, Option<IndexV>),
}

pub open spec fn lend1(e: Ev, lends: bool) -> Ev {
    match e {
        Ev::TextFragment(s, b) => Ev::TextFragment(s, b && lends),
        Ev::BinaryFragment(s, b) => Ev::BinaryFragment(s, b && lends),
        _ => e,
    }
}
pub open spec fn lend(s: Seq<Ev>, lends: bool) -> Seq<Ev> { s.map_values(|e: Ev| lend1(e, lends)) }

pub proof fn lend_append(a: Seq<Ev>, b: Seq<Ev>, l: bool)
    ensures lend(a + b, l) =~= lend(a, l) + lend(b, l),
{ }
pub broadcast proof fn lend_push(a: Seq<Ev>, e: Ev, l: bool)
    ensures #[trigger] lend(a.push(e), l) =~= lend(a, l).push(lend1(e, l)),
{ }
pub broadcast proof fn lend_lend(a: Seq<Ev>, l: bool, m: bool)
    ensures #[trigger] lend(lend(a, l), m) =~= lend(a, l && m),
{ }
pub broadcast proof fn append_empty(a: Seq<Ev>)
    ensures #[trigger] (a + Seq::<Ev>::empty()) =~= a,
{ }
pub broadcast proof fn append_assoc(a: Seq<Ev>, b: Seq<Ev>, c: Seq<Ev>)
    ensures #[trigger] ((a + b) + c) =~= a + (b + c),
{ }
pub broadcast proof fn lend_concat(a: Seq<Ev>, b: Seq<Ev>, l: bool)
    ensures #[trigger] lend(a + b, l) =~= lend(a, l) + lend(b, l),
{ }

