// C01: the events of a whole value, and the JSON document they write.
//
// A value is a tree of events.  Lists grow at their end, as the formatter sees them.
// Steps that the formatter takes alike (the events of a tuple's items and of a sequence's, of a
// record tuple and of a record) are named by one of them; see `alike`.
pub ghost enum T {
    Leaf(sval::Ev),
    Text(Seq<Seq<char>>),
    Binary(Seq<Seq<u8>>),
    Seq(Items),
    Map(Ents),
    Tuple(Option<sval::Tag>, Option<sval::LabelV>, Option<sval::IndexV>, Items),
    Record(Option<sval::Tag>, Option<sval::LabelV>, Option<sval::IndexV>, Flds),
    Tag(Option<sval::Tag>, Option<sval::LabelV>, Option<sval::IndexV>),
    Tagged(Option<sval::Tag>, Option<sval::LabelV>, Option<sval::IndexV>, Kid),
    Enum(Option<sval::Tag>, Option<sval::LabelV>, Option<sval::IndexV>, Kid),
    // text tagged as a number, or as JSON
    Number(Option<sval::LabelV>, Option<sval::IndexV>, Seq<Seq<char>>),
    Raw(sval::Tag, Option<sval::LabelV>, Option<sval::IndexV>, Seq<Seq<char>>),
}
pub ghost enum Kid { Nil, Some(Box<T>) }
pub ghost enum Items { Nil, Snoc(Box<Items>, Box<T>) }
pub ghost enum Ents { Nil, Snoc(Box<Ents>, Box<T>, Box<T>) }
pub ghost enum Flds { Nil, Snoc(Box<Flds>, sval::LabelV, Box<T>) }

pub open spec fn scalar(ev: sval::Ev) -> bool {
    match ev {
        sval::Ev::Null => true, sval::Ev::Bool(_) => true,
        sval::Ev::U8(_) => true, sval::Ev::U16(_) => true, sval::Ev::U32(_) => true, sval::Ev::U64(_) => true, sval::Ev::U128(_) => true,
        sval::Ev::I8(_) => true, sval::Ev::I16(_) => true, sval::Ev::I32(_) => true, sval::Ev::I64(_) => true, sval::Ev::I128(_) => true,
        sval::Ev::F32(_) => true, sval::Ev::F64(_) => true,
        _ => false,
    }
}
pub open spec fn handled(t: Option<sval::Tag>) -> bool {
    t == Some(tags::JSON_TEXT) || t == Some(tags::JSON_VALUE) || t == Some(tags::JSON_NUMBER) || t == Some(sval::tags::NUMBER)
}
// what may be the content of an enum
pub open spec fn variant(t: T) -> bool {
    match t { T::Leaf(_) => false, T::Text(_) => false, T::Binary(_) => false, T::Seq(_) => false, T::Map(_) => false, _ => true }
}
pub open spec fn label_of(t: T) -> Option<sval::LabelV> {
    match t {
        T::Tuple(_, l, _, _) => l, T::Record(_, l, _, _) => l, T::Tagged(_, l, _, _) => l, T::Enum(_, l, _, _) => l,
        T::Number(l, _, _) => l, T::Raw(_, l, _, _) => l, _ => None,
    }
}
pub open spec fn index_of(t: T) -> Option<sval::IndexV> {
    match t {
        T::Tuple(_, _, i, _) => i, T::Record(_, _, i, _) => i, T::Tagged(_, _, i, _) => i, T::Enum(_, _, i, _) => i,
        T::Number(_, i, _) => i, T::Raw(_, _, i, _) => i, _ => None,
    }
}
pub open spec fn named(t: T) -> bool { label_of(t).is_some() || oi64(index_of(t)).is_some() }

// -- the events of the tree, through the formatter ------------------------------
pub ghost struct S { pub f: F, pub o: Seq<u8> }
pub open spec fn st(ev: sval::Ev, a: S, b: S) -> bool { jstep(a.f, ev, b.f, a.o, b.o) }

pub open spec fn frs(v: Seq<Seq<char>>, a: S, b: S) -> bool
    decreases v.len(),
{
    if v.len() == 0 { b == a }
    else { exists|c: S| frs(v.drop_last(), a, c) && #[trigger] st(sval::Ev::TextFragment(v.last(), false), c, b) }
}
pub open spec fn text_run(v: Seq<Seq<char>>, a: S, b: S) -> bool {
    exists|c: S, d: S| #[trigger] st(sval::Ev::TextBegin(None), a, c) && frs(v, c, d) && #[trigger] st(sval::Ev::TextEnd, d, b)
}
pub open spec fn bfrs(v: Seq<Seq<u8>>, a: S, b: S) -> bool
    decreases v.len(),
{
    if v.len() == 0 { b == a }
    else { exists|c: S| bfrs(v.drop_last(), a, c) && #[trigger] st(sval::Ev::BinaryFragment(v.last(), false), c, b) }
}
pub proof fn alike(f: F, f2: F, o: Seq<u8>, o2: Seq<u8>, t: Option<sval::Tag>, l: sval::LabelV, x: sval::IndexV, ol: Option<sval::LabelV>, ox: Option<sval::IndexV>, n: Option<usize>, s: Seq<char>, y: Seq<u8>, lent: bool)
    ensures
        jstep(f, sval::Ev::TupleValueBegin(t, x), f2, o, o2) == jstep(f, sval::Ev::SeqValueBegin, f2, o, o2),
        jstep(f, sval::Ev::TupleValueEnd(t, x), f2, o, o2) == jstep(f, sval::Ev::SeqValueEnd, f2, o, o2),
        jstep(f, sval::Ev::RecordValueEnd(t, l), f2, o, o2) == jstep(f, sval::Ev::MapValueEnd, f2, o, o2),
        jstep(f, sval::Ev::RecordTupleBegin(t, ol, ox, n), f2, o, o2) == jstep(f, sval::Ev::RecordBegin(None, ol, ox, None), f2, o, o2),
        jstep(f, sval::Ev::RecordTupleValueBegin(t, l, x), f2, o, o2) == jstep(f, sval::Ev::RecordValueBegin(None, l), f2, o, o2),
        jstep(f, sval::Ev::RecordTupleValueEnd(t, l, x), f2, o, o2) == jstep(f, sval::Ev::MapValueEnd, f2, o, o2),
        jstep(f, sval::Ev::RecordTupleEnd(t, ol, ox), f2, o, o2) == jstep(f, sval::Ev::RecordEnd(None, ol, ox), f2, o, o2),
        jstep(f, sval::Ev::TextFragment(s, lent), f2, o, o2) == jstep(f, sval::Ev::TextFragment(s, false), f2, o, o2),
        jstep(f, sval::Ev::BinaryFragment(y, lent), f2, o, o2) == jstep(f, sval::Ev::BinaryFragment(y, false), f2, o, o2),
        t.is_some() ==> jstep(f, sval::Ev::TagHint(t.unwrap()), f2, o, o2) == (f2 == f && o2 == o),
{}
pub open spec fn run(t: T, a: S, b: S) -> bool
    decreases t,
{
    match t {
        T::Leaf(ev) => scalar(ev) && st(ev, a, b),
        T::Text(v) => text_run(v, a, b),
        T::Binary(v) => exists|c: S, d: S| #[trigger] st(sval::Ev::BinaryBegin(None), a, c) && bfrs(v, c, d) && #[trigger] st(sval::Ev::BinaryEnd, d, b),
        T::Seq(l) => exists|c: S, d: S| #[trigger] st(sval::Ev::SeqBegin(None), a, c) && items_run(l, c, d) && #[trigger] st(sval::Ev::SeqEnd, d, b),
        T::Map(l) => exists|c: S, d: S| #[trigger] st(sval::Ev::MapBegin(None), a, c) && ents_run(l, c, d) && #[trigger] st(sval::Ev::MapEnd, d, b),
        T::Tuple(g, n, i, l) => exists|c: S, d: S| #[trigger] st(sval::Ev::TupleBegin(None, n, i, None), a, c) && items_run(l, c, d) && #[trigger] st(sval::Ev::TupleEnd(None, n, i), d, b),
        T::Record(g, n, i, l) => exists|c: S, d: S| #[trigger] st(sval::Ev::RecordBegin(None, n, i, None), a, c) && flds_run(l, c, d) && #[trigger] st(sval::Ev::RecordEnd(None, n, i), d, b),
        T::Tag(g, n, i) => st(sval::Ev::Tag(g, n, i), a, b),
        T::Tagged(g, n, i, k) => !handled(g) && exists|c: S, d: S| #[trigger] st(sval::Ev::TaggedBegin(g, n, i), a, c) && kid_run(k, c, d) && #[trigger] st(sval::Ev::TaggedEnd(g, n, i), d, b),
        T::Enum(g, n, i, k) => (k matches Kid::Some(v) ==> variant(*v))
            && exists|c: S, d: S| #[trigger] st(sval::Ev::EnumBegin(None, n, i), a, c) && kid_run(k, c, d) && #[trigger] st(sval::Ev::EnumEnd(g, n, i), d, b),
        T::Number(n, i, v) => all_finite(flat(v))
            && exists|c: S, d: S| #[trigger] st(sval::Ev::TaggedBegin(Some(sval::tags::NUMBER), n, i), a, c) && #[trigger] text_run(v, c, d) && #[trigger] st(sval::Ev::TaggedEnd(Some(sval::tags::NUMBER), n, i), d, b),
        T::Raw(g, n, i, v) => (g == tags::JSON_TEXT || g == tags::JSON_VALUE || g == tags::JSON_NUMBER)
            && exists|c: S, d: S| #[trigger] st(sval::Ev::TaggedBegin(Some(g), n, i), a, c) && #[trigger] text_run(v, c, d) && #[trigger] st(sval::Ev::TaggedEnd(Some(g), n, i), d, b),
    }
}
pub open spec fn kid_run(k: Kid, a: S, b: S) -> bool
    decreases k,
{ match k { Kid::Nil => b == a, Kid::Some(t) => run(*t, a, b) } }
pub open spec fn items_run(l: Items, a: S, b: S) -> bool
    decreases l,
{
    match l {
        Items::Nil => b == a,
        Items::Snoc(r, t) => exists|c: S, d: S, e: S| items_run(*r, a, c) && #[trigger] st(sval::Ev::SeqValueBegin, c, d) && run(*t, d, e) && #[trigger] st(sval::Ev::SeqValueEnd, e, b),
    }
}
pub open spec fn ents_run(l: Ents, a: S, b: S) -> bool
    decreases l,
{
    match l {
        Ents::Nil => b == a,
        Ents::Snoc(r, k, v) => exists|c: S, c1: S, c2: S, d: S, d1: S, d2: S| ents_run(*r, a, c)
            && #[trigger] st(sval::Ev::MapKeyBegin, c, c1) && run(*k, c1, c2) && #[trigger] st(sval::Ev::MapKeyEnd, c2, d)
            && #[trigger] st(sval::Ev::MapValueBegin, d, d1) && run(*v, d1, d2) && #[trigger] st(sval::Ev::MapValueEnd, d2, b),
    }
}
pub open spec fn flds_run(l: Flds, a: S, b: S) -> bool
    decreases l,
{
    match l {
        Flds::Nil => b == a,
        Flds::Snoc(r, n, t) => exists|c: S, d: S, e: S| flds_run(*r, a, c) && #[trigger] st(sval::Ev::RecordValueBegin(None, n), c, d) && run(*t, d, e) && #[trigger] st(sval::Ev::MapValueEnd, e, b),
    }
}

// -- JSON documents that mirror the tree -----------------------------------------
// (RFC 8259's grammar, with the tree as the parse tree)
pub open spec fn flat(v: Seq<Seq<char>>) -> Seq<u8>
    decreases v.len(),
{ if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + encode_utf8(v.last()) } }
pub open spec fn flatb(v: Seq<Seq<u8>>) -> Seq<u8>
    decreases v.len(),
{ if v.len() == 0 { Seq::empty() } else { flatb(v.drop_last()) + v.last() } }
pub open spec fn string_doc(text: Seq<u8>, x: Seq<u8>) -> bool { exists|y: Seq<u8>| #[trigger] unesc(y) == Some(text) && x == b_key() + y + b_key() }
pub open spec fn leaf_doc(ev: sval::Ev, x: Seq<u8>) -> bool {
    match ev {
        sval::Ev::Null => x == b_null(),
        sval::Ev::Bool(v) => x == (if v { b_true() } else { b_false() }),
        sval::Ev::U8(v) => x == dec(v as int), sval::Ev::U16(v) => x == dec(v as int), sval::Ev::U32(v) => x == dec(v as int),
        sval::Ev::U64(v) => x == dec(v as int), sval::Ev::U128(v) => x == dec(v as int),
        sval::Ev::I8(v) => x == dec(v as int), sval::Ev::I16(v) => x == dec(v as int), sval::Ev::I32(v) => x == dec(v as int),
        sval::Ev::I64(v) => x == dec(v as int), sval::Ev::I128(v) => x == dec(v as int),
        sval::Ev::F32(v) => if finite32(v) { x == shortest32(v) && is_json_number(x) } else { x == b_null() },
        sval::Ev::F64(v) => if finite64(v) { x == shortest64(v) && is_json_number(x) } else { x == b_null() },
        _ => false,
    }
}
pub open spec fn tag_doc(g: Option<sval::Tag>, n: Option<sval::LabelV>, i: Option<sval::IndexV>, x: Seq<u8>) -> bool {
    if g == Some(sval::tags::RUST_OPTION_NONE) { x == b_null() }
    else if n.is_some() { string_doc(encode_utf8(n.unwrap().text), x) }
    else if oi64(i).is_some() { x == dec(oi64(i).unwrap() as int) }
    else { x == b_null() }
}
// the start of the object around a named variant, up to its value
pub open spec fn variant_key(n: Option<sval::LabelV>, i: Option<sval::IndexV>, p: Seq<u8>) -> bool {
    if n.is_some() { exists|y: Seq<u8>| #[trigger] unesc(y) == Some(encode_utf8(n.unwrap().text)) && p == b_open_key() + y + b_colon() }
    else { oi64(i).is_some() && p == b_open_key() + dec(oi64(i).unwrap() as int) + b_colon() }
}
pub open spec fn comma(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { a + seq![44u8] + b }
pub open spec fn member(a: Seq<u8>, first: bool, k: Seq<u8>, v: Seq<u8>) -> Seq<u8> { a + (if first { b_key() } else { b_next_key() }) + k + b_colon() + v }
pub open spec fn array(y: Seq<u8>) -> Seq<u8> { seq![91u8] + y + seq![93u8] }
pub open spec fn object(y: Seq<u8>) -> Seq<u8> { seq![123u8] + y + seq![125u8] }
pub open spec fn wrapped(p: Seq<u8>, y: Seq<u8>) -> Seq<u8> { p + y + seq![125u8] }
pub open spec fn doc(t: T, x: Seq<u8>) -> bool
    decreases t,
{
    match t {
        T::Leaf(ev) => leaf_doc(ev, x),
        T::Text(v) => string_doc(flat(v), x),
        T::Binary(v) => x == array(bytes_out(flatb(v), true)),
        T::Seq(l) => exists|y: Seq<u8>| items_doc(l, y) && x == #[trigger] array(y),
        T::Tuple(_, _, _, l) => exists|y: Seq<u8>| items_doc(l, y) && x == #[trigger] array(y),
        T::Map(l) => exists|y: Seq<u8>| ents_doc(l, y) && x == #[trigger] object(y),
        T::Record(_, _, _, l) => exists|y: Seq<u8>| flds_doc(l, y) && x == #[trigger] object(y),
        T::Tag(g, n, i) => tag_doc(g, n, i, x),
        T::Tagged(g, n, i, k) => match k { Kid::Nil => tag_doc(g, n, i, x), Kid::Some(v) => doc(*v, x) },
        T::Enum(g, n, i, k) => match k {
            Kid::Nil => tag_doc(g, n, i, x),
            Kid::Some(v) =>
                if named(*v) { exists|p: Seq<u8>, y: Seq<u8>| variant_key(label_of(*v), index_of(*v), p) && doc(*v, y) && x == #[trigger] wrapped(p, y) }
                else { doc(*v, x) },
        },
        T::Number(_, _, v) => x == nwritten(flat(v)),
        T::Raw(g, _, _, v) => x == (if g == tags::JSON_TEXT { b_key() + flat(v) + b_key() } else { flat(v) }),
    }
}
pub open spec fn items_doc(l: Items, y: Seq<u8>) -> bool
    decreases l,
{
    match l {
        Items::Nil => y == none(),
        Items::Snoc(r, t) => if *r is Nil { doc(*t, y) }
            else { exists|a: Seq<u8>, b: Seq<u8>| items_doc(*r, a) && doc(*t, b) && y == #[trigger] comma(a, b) },
    }
}
// the inside of the string that a key becomes
pub open spec fn key_doc(t: T, x: Seq<u8>) -> bool
    decreases t,
{
    match t {
        T::Leaf(ev) => leaf_doc(ev, x) && unesc(x) == Some(x),
        T::Text(v) => unesc(x) == Some(flat(v)),
        T::Tag(g, n, i) => key_tag_doc(g, n, i, x),
        T::Tagged(g, n, i, k) => match k { Kid::Nil => key_tag_doc(g, n, i, x), Kid::Some(v) => key_doc(*v, x) },
        T::Enum(g, n, i, k) => match k { Kid::Nil => key_tag_doc(g, n, i, x), Kid::Some(v) => key_doc(*v, x) },
        T::Number(_, _, v) => x == nwritten(flat(v)),
        T::Raw(_, _, _, v) => x == flat(v),
        _ => false,
    }
}
pub open spec fn key_tag_doc(g: Option<sval::Tag>, n: Option<sval::LabelV>, i: Option<sval::IndexV>, x: Seq<u8>) -> bool {
    if g == Some(sval::tags::RUST_OPTION_NONE) { x == b_null() }
    else if n.is_some() { unesc(x) == Some(encode_utf8(n.unwrap().text)) }
    else if oi64(i).is_some() { x == dec(oi64(i).unwrap() as int) }
    else { x == b_null() }
}
pub open spec fn ents_doc(l: Ents, y: Seq<u8>) -> bool
    decreases l,
{
    match l {
        Ents::Nil => y == none(),
        Ents::Snoc(r, k, v) => exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| ents_doc(*r, a) && key_doc(*k, b) && doc(*v, c)
            && y == #[trigger] member(a, *r is Nil, b, c),
    }
}
pub open spec fn field_doc(n: sval::LabelV, x: Seq<u8>) -> bool {
    // a label hinted to be an identifier is trusted to need no escapes
    if n.tag == Some(sval::tags::VALUE_IDENT) { x == encode_utf8(n.text) } else { unesc(x) == Some(encode_utf8(n.text)) }
}
pub open spec fn flds_doc(l: Flds, y: Seq<u8>) -> bool
    decreases l,
{
    match l {
        Flds::Nil => y == none(),
        Flds::Snoc(r, n, v) => exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| flds_doc(*r, a) && field_doc(n, b) && doc(*v, c)
            && y == #[trigger] member(a, *r is Nil, b, c),
    }
}

// -- the proof ---------------------------------------------------------------------
pub open spec fn put(t: T, o: Seq<u8>, o2: Seq<u8>) -> bool { exists|x: Seq<u8>| #[trigger] doc(t, x) && o2 == o + x }
pub open spec fn put_key(t: T, o: Seq<u8>, o2: Seq<u8>) -> bool { exists|x: Seq<u8>| #[trigger] key_doc(t, x) && o2 == o + x }

// JSON numbers contain nothing that a string would have to escape.
pub proof fn number_plain(x: Seq<u8>)
    requires read_all(x).phase != 9,
    ensures forall|i: int| 0 <= i < x.len() ==> plain(#[trigger] x[i]), unesc(x) == Some(x),
    decreases x.len(),
{
    if x.len() > 0 {
        number_plain(x.drop_last());
        assert forall|i: int| 0 <= i < x.len() implies plain(#[trigger] x[i]) by {
            if i < x.len() - 1 { assert(plain(x.drop_last()[i])); }
        }
    }
    unesc_plain(x);
}
pub proof fn leaf_plain(ev: sval::Ev, x: Seq<u8>)
    requires leaf_doc(ev, x),
    ensures unesc(x) == Some(x),
{
    match ev {
        sval::Ev::Null => unesc_plain(x),
        sval::Ev::Bool(_) => unesc_plain(x),
        sval::Ev::U8(v) => { integer_is_exact(v as int); number_plain(x) },
        sval::Ev::U16(v) => { integer_is_exact(v as int); number_plain(x) },
        sval::Ev::U32(v) => { integer_is_exact(v as int); number_plain(x) },
        sval::Ev::U64(v) => { integer_is_exact(v as int); number_plain(x) },
        sval::Ev::U128(v) => { integer_is_exact(v as int); number_plain(x) },
        sval::Ev::I8(v) => { integer_is_exact(v as int); number_plain(x) },
        sval::Ev::I16(v) => { integer_is_exact(v as int); number_plain(x) },
        sval::Ev::I32(v) => { integer_is_exact(v as int); number_plain(x) },
        sval::Ev::I64(v) => { integer_is_exact(v as int); number_plain(x) },
        sval::Ev::I128(v) => { integer_is_exact(v as int); number_plain(x) },
        sval::Ev::F32(v) => { if finite32(v) { number_plain(x) } else { unesc_plain(x) } },
        sval::Ev::F64(v) => { if finite64(v) { number_plain(x) } else { unesc_plain(x) } },
        _ => {},
    }
}
pub proof fn leaf_writes(ev: sval::Ev, a: S, b: S)
    requires scalar(ev), st(ev, a, b),
    ensures b.f == (F { empty: false, ..a.f }), exists|x: Seq<u8>| #[trigger] leaf_doc(ev, x) && b.o == a.o + x,
{
    let x = b.o.skip(a.o.len() as int);
    assert(b.o =~= a.o + x);
    let w = match ev {
        sval::Ev::Null => b_null(),
        sval::Ev::Bool(v) => if v { b_true() } else { b_false() },
        sval::Ev::U8(v) => dec(v as int), sval::Ev::U16(v) => dec(v as int), sval::Ev::U32(v) => dec(v as int),
        sval::Ev::U64(v) => dec(v as int), sval::Ev::U128(v) => dec(v as int),
        sval::Ev::I8(v) => dec(v as int), sval::Ev::I16(v) => dec(v as int), sval::Ev::I32(v) => dec(v as int),
        sval::Ev::I64(v) => dec(v as int), sval::Ev::I128(v) => dec(v as int),
        sval::Ev::F32(v) => if finite32(v) { shortest32(v) } else { b_null() },
        sval::Ev::F64(v) => if finite64(v) { shortest64(v) } else { b_null() },
        _ => none(),
    };
    assert(x =~= w);
    assert(leaf_doc(ev, x));
}
// text without a handler
pub proof fn frs_quoted(v: Seq<Seq<char>>, a: S, b: S)
    requires frs(v, a, b), a.f.h is None,
    ensures b.f == a.f, quoted(a.o, b.o, flat(v)),
    decreases v.len(),
{
    if v.len() == 0 {
        assert(a.o.take(a.o.len() as int) =~= a.o);
        assert(a.o.skip(a.o.len() as int) =~= Seq::empty());
    } else {
        let c = choose|c: S| frs(v.drop_last(), a, c) && #[trigger] st(sval::Ev::TextFragment(v.last(), false), c, b);
        frs_quoted(v.drop_last(), a, c);
        quoted_fragments(a.o, c.o, b.o, flat(v.drop_last()), encode_utf8(v.last()));
    }
}
pub proof fn frs_native(v: Seq<Seq<char>>, a: S, b: S)
    requires frs(v, a, b), a.f.h is Native,
    ensures b.f == a.f, b.o == a.o + flat(v),
    decreases v.len(),
{
    if v.len() == 0 {
        assert(a.o + flat(v) =~= a.o);
    } else {
        let c = choose|c: S| frs(v.drop_last(), a, c) && #[trigger] st(sval::Ev::TextFragment(v.last(), false), c, b);
        frs_native(v.drop_last(), a, c);
        assert(b.o =~= a.o + flat(v));
    }
}
pub proof fn frs_number(v: Seq<Seq<char>>, a: S, b: S)
    requires frs(v, a, b), a.f.h == Hd::Number(nstart(), false), all_finite(flat(v)),
    ensures
        b.f == (F { h: Hd::Number(nfold(nstart(), flat(v)).0, false), ..a.f }),
        b.o == a.o + nfold(nstart(), flat(v)).1,
    decreases v.len(),
{
    if v.len() == 0 {
        assert(a.o + nfold(nstart(), flat(v)).1 =~= a.o);
    } else {
        let c = choose|c: S| frs(v.drop_last(), a, c) && #[trigger] st(sval::Ev::TextFragment(v.last(), false), c, b);
        let u = flat(v.drop_last());
        let w = encode_utf8(v.last());
        assert forall|i: int| 0 <= i < u.len() implies !nonfinite(#[trigger] u[i]) by { assert(flat(v)[i] == u[i]); }
        assert forall|i: int| 0 <= i < w.len() implies !nonfinite(#[trigger] w[i]) by { assert(flat(v)[u.len() + i] == w[i]); }
        frs_number(v.drop_last(), a, c);
        nfold_fragments(nstart(), u, w);
        assert(b.o =~= a.o + nfold(nstart(), flat(v)).1);
    }
}
pub proof fn string_from(o: Seq<u8>, c: Seq<u8>, d: Seq<u8>, o2: Seq<u8>, text: Seq<u8>)
    requires c == o + b_key(), quoted(c, d, text), o2 == d + b_key(),
    ensures exists|x: Seq<u8>| #[trigger] string_doc(text, x) && o2 == o + x,
{
    let y = d.skip(c.len() as int);
    assert(d =~= c + y) by {
        assert forall|i: int| 0 <= i < c.len() implies d[i] == c[i] by { assert(d.take(c.len() as int)[i] == c[i]); }
    }
    let x = b_key() + y + b_key();
    assert(unesc(y) == Some(text));
    assert(string_doc(text, x));
    assert(o2 =~= o + x);
}
pub proof fn quoted_tail(o: Seq<u8>, o2: Seq<u8>, text: Seq<u8>)
    requires quoted(o, o2, text),
    ensures exists|x: Seq<u8>| #[trigger] unesc(x) == Some(text) && o2 == o + x,
{
    let y = o2.skip(o.len() as int);
    assert(o2 =~= o + y) by {
        assert forall|i: int| 0 <= i < o.len() implies o2[i] == o[i] by { assert(o2.take(o.len() as int)[i] == o[i]); }
    }
}
pub proof fn text_ok(v: Seq<Seq<char>>, a: S, b: S)
    requires text_run(v, a, b), a.f.h is None,
    ensures
        b.f == (F { empty: false, ..a.f }),
        a.f.quoted ==> put(T::Text(v), a.o, b.o),
        !a.f.quoted ==> put_key(T::Text(v), a.o, b.o),
{
    let (c, d) = choose|c: S, d: S| #[trigger] st(sval::Ev::TextBegin(None), a, c) && frs(v, c, d) && #[trigger] st(sval::Ev::TextEnd, d, b);
    frs_quoted(v, c, d);
    if a.f.quoted {
        string_from(a.o, c.o, d.o, b.o, flat(v));
        let x = choose|x: Seq<u8>| #[trigger] string_doc(flat(v), x) && b.o == a.o + x;
        assert(doc(T::Text(v), x));
    } else {
        assert(a.o + none() =~= a.o); assert(d.o + none() =~= d.o);
        quoted_tail(a.o, b.o, flat(v));
        let x = choose|x: Seq<u8>| #[trigger] unesc(x) == Some(flat(v)) && b.o == a.o + x;
        assert(key_doc(T::Text(v), x));
    }
}
pub proof fn tag_ok(g: Option<sval::Tag>, n: Option<sval::LabelV>, i: Option<sval::IndexV>, a: S, b: S)
    requires tag_only(a.f, g, n, i, b.f, a.o, b.o), a.f.h is None,
    ensures
        b.f == (F { empty: false, tagged: false, ..a.f }),
        a.f.quoted ==> exists|x: Seq<u8>| #[trigger] tag_doc(g, n, i, x) && b.o == a.o + x,
        !a.f.quoted ==> exists|x: Seq<u8>| #[trigger] key_tag_doc(g, n, i, x) && b.o == a.o + x,
{
    if g != Some(sval::tags::RUST_OPTION_NONE) && n.is_some() {
        let text = encode_utf8(n.unwrap().text);
        let q = if a.f.quoted { b_key() } else { none() };
        let y = choose|y: Seq<u8>| #[trigger] unesc(y) == Some(text) && b.o == a.o + q + y + q;
        if a.f.quoted {
            let x = b_key() + y + b_key();
            assert(b.o =~= a.o + x);
            assert(string_doc(text, x));
            assert(tag_doc(g, n, i, x));
        } else {
            assert(b.o =~= a.o + y);
            assert(key_tag_doc(g, n, i, y));
        }
    } else {
        let x = b.o.skip(a.o.len() as int);
        assert(b.o =~= a.o + x);
        let w = if g == Some(sval::tags::RUST_OPTION_NONE) || oi64(i).is_none() { b_null() } else { dec(oi64(i).unwrap() as int) };
        assert(x =~= w);
        assert(tag_doc(g, n, i, x));
        assert(key_tag_doc(g, n, i, x));
    }
}

// where a value starts, behind the start of the object that names it
pub open spec fn lead(t: T, tagged: bool, o: Seq<u8>, o1: Seq<u8>) -> bool {
    if tagged && named(t) { exists|p: Seq<u8>| #[trigger] variant_key(label_of(t), index_of(t), p) && o1 == o + p } else { o1 == o }
}
pub proof fn lead_ok(t: T, a: S, f1: F, o1: Seq<u8>)
    requires tag_begin(a.f, label_of(t), index_of(t), f1, a.o, o1),
    ensures
        lead(t, a.f.tagged, a.o, o1), !f1.tagged, f1.quoted == a.f.quoted, f1.h == a.f.h,
        a.f.tagged && named(t) ==> a.f.quoted,
{
    if a.f.tagged && named(t) {
        if label_of(t).is_some() {
            let text = encode_utf8(label_of(t).unwrap().text);
            let y = choose|y: Seq<u8>| #[trigger] unesc(y) == Some(text) && o1 == a.o + b_open_key() + y + b_colon();
            let p = b_open_key() + y + b_colon();
            assert(o1 =~= a.o + p);
            assert(variant_key(label_of(t), index_of(t), p));
        } else {
            let p = b_open_key() + dec(oi64(index_of(t)).unwrap() as int) + b_colon();
            assert(o1 =~= a.o + p);
            assert(variant_key(label_of(t), index_of(t), p));
        }
    }
}
// C01.  A value that streams successfully has written exactly one document, which mirrors it
// (behind the key that names it, inside an enum).
pub proof fn value_ok(t: T, a: S, b: S)
    requires run(t, a, b), a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.quoted, b.f.h is None, !b.f.empty,
        a.f.tagged ==> b.f.tagged == named(t),
        exists|o1: Seq<u8>| #[trigger] lead(t, a.f.tagged, a.o, o1) && put(t, o1, b.o),
    decreases t, 1nat,
{
    match t {
        T::Leaf(ev) => value_ok_leaf(t, a, b),
        T::Text(v) => value_ok_text(t, a, b),
        T::Binary(v) => value_ok_binary(t, a, b),
        T::Seq(l) => value_ok_seq(t, a, b),
        T::Map(l) => value_ok_map(t, a, b),
        T::Tuple(g, n, i, l) => value_ok_tuple(t, a, b),
        T::Record(g, n, i, l) => value_ok_record(t, a, b),
        T::Tag(g, n, i) => value_ok_tag(t, a, b),
        T::Tagged(g, n, i, k) => value_ok_tagged(t, a, b),
        T::Enum(g, n, i, k) => value_ok_enum(t, a, b),
        T::Number(n, i, v) => value_ok_number(t, a, b),
        T::Raw(g, n, i, v) => value_ok_raw(t, a, b),
    }
}
proof fn value_ok_leaf(t: T, a: S, b: S)
    requires t is Leaf, run(t, a, b), a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.quoted, b.f.h is None, !b.f.empty,
        a.f.tagged ==> b.f.tagged == named(t),
        exists|o1: Seq<u8>| #[trigger] lead(t, a.f.tagged, a.o, o1) && put(t, o1, b.o),
    decreases t, 0nat,
{
    if let T::Leaf(ev) = t {
            leaf_writes(ev, a, b);
            let x = choose|x: Seq<u8>| #[trigger] leaf_doc(ev, x) && b.o == a.o + x;
            assert(doc(t, x));
            assert(lead(t, a.f.tagged, a.o, a.o));
        }
}
proof fn value_ok_text(t: T, a: S, b: S)
    requires t is Text, run(t, a, b), a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.quoted, b.f.h is None, !b.f.empty,
        a.f.tagged ==> b.f.tagged == named(t),
        exists|o1: Seq<u8>| #[trigger] lead(t, a.f.tagged, a.o, o1) && put(t, o1, b.o),
    decreases t, 0nat,
{
    if let T::Text(v) = t { text_ok(v, a, b); assert(lead(t, a.f.tagged, a.o, a.o)); }
}
proof fn value_ok_binary(t: T, a: S, b: S)
    requires t is Binary, run(t, a, b), a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.quoted, b.f.h is None, !b.f.empty,
        a.f.tagged ==> b.f.tagged == named(t),
        exists|o1: Seq<u8>| #[trigger] lead(t, a.f.tagged, a.o, o1) && put(t, o1, b.o),
    decreases t, 0nat,
{
    if let T::Binary(v) = t {
            let (c, d) = choose|c: S, d: S| #[trigger] st(sval::Ev::BinaryBegin(None), a, c) && bfrs(v, c, d) && #[trigger] st(sval::Ev::BinaryEnd, d, b);
            bfrs_ok(v, c, d);
            let x = array(bytes_out(flatb(v), true));
            assert(doc(t, x));
            assert(b.o =~= a.o + x);
            assert(lead(t, a.f.tagged, a.o, a.o));
        }
}
// however the bytes are split
pub proof fn bytes_append(s: Seq<u8>, t: Seq<u8>, first: bool)
    ensures bytes_out(s + t, first) == bytes_out(s, first) + bytes_out(t, first && s.len() == 0),
    decreases t.len(),
{
    if t.len() == 0 {
        assert(s + t =~= s);
        assert(bytes_out(s, first) + none() =~= bytes_out(s, first));
    } else {
        bytes_append(s, t.drop_last(), first);
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert((s + t).last() == t.last());
        assert(bytes_out(s + t, first) =~= bytes_out(s, first) + bytes_out(t, first && s.len() == 0));
    }
}
pub proof fn bfrs_ok(v: Seq<Seq<u8>>, a: S, b: S)
    requires bfrs(v, a, b), a.f.empty,
    ensures b.f == bytes_f(a.f, flatb(v)), b.o == a.o + bytes_out(flatb(v), true),
    decreases v.len(),
{
    if v.len() == 0 {
        assert(a.o + none() =~= a.o);
    } else {
        let c = choose|c: S| bfrs(v.drop_last(), a, c) && #[trigger] st(sval::Ev::BinaryFragment(v.last(), false), c, b);
        bfrs_ok(v.drop_last(), a, c);
        bytes_append(flatb(v.drop_last()), v.last(), true);
        assert(b.o =~= a.o + bytes_out(flatb(v), true));
    }
}
proof fn value_ok_seq(t: T, a: S, b: S)
    requires t is Seq, run(t, a, b), a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.quoted, b.f.h is None, !b.f.empty,
        a.f.tagged ==> b.f.tagged == named(t),
        exists|o1: Seq<u8>| #[trigger] lead(t, a.f.tagged, a.o, o1) && put(t, o1, b.o),
    decreases t, 0nat,
{
    if let T::Seq(l) = t {
            let (c, d) = choose|c: S, d: S| #[trigger] st(sval::Ev::SeqBegin(None), a, c) && items_run(l, c, d) && #[trigger] st(sval::Ev::SeqEnd, d, b);
            items_ok(l, c, d);
            let y = choose|y: Seq<u8>| #[trigger] items_doc(l, y) && d.o == c.o + y;
            let x = array(y);
            assert(doc(t, x));
            assert(b.o =~= a.o + x);
            assert(lead(t, a.f.tagged, a.o, a.o));
        }
}
proof fn value_ok_map(t: T, a: S, b: S)
    requires t is Map, run(t, a, b), a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.quoted, b.f.h is None, !b.f.empty,
        a.f.tagged ==> b.f.tagged == named(t),
        exists|o1: Seq<u8>| #[trigger] lead(t, a.f.tagged, a.o, o1) && put(t, o1, b.o),
    decreases t, 0nat,
{
    if let T::Map(l) = t {
            let (c, d) = choose|c: S, d: S| #[trigger] st(sval::Ev::MapBegin(None), a, c) && ents_run(l, c, d) && #[trigger] st(sval::Ev::MapEnd, d, b);
            ents_ok(l, c, d);
            let y = choose|y: Seq<u8>| #[trigger] ents_doc(l, y) && d.o == c.o + y;
            let x = object(y);
            assert(doc(t, x));
            assert(b.o =~= a.o + x);
            assert(lead(t, a.f.tagged, a.o, a.o));
        }
}
proof fn value_ok_tuple(t: T, a: S, b: S)
    requires t is Tuple, run(t, a, b), a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.quoted, b.f.h is None, !b.f.empty,
        a.f.tagged ==> b.f.tagged == named(t),
        exists|o1: Seq<u8>| #[trigger] lead(t, a.f.tagged, a.o, o1) && put(t, o1, b.o),
    decreases t, 0nat,
{
    if let T::Tuple(g, n, i, l) = t {
            let (c, d) = choose|c: S, d: S| #[trigger] st(sval::Ev::TupleBegin(None, n, i, None), a, c) && items_run(l, c, d) && #[trigger] st(sval::Ev::TupleEnd(None, n, i), d, b);
            let (m, om) = choose|m: F, om: Seq<u8>| #[trigger] tag_begin(a.f, n, i, m, a.o, om) && a.f.quoted && c.f == (F { empty: true, ..m }) && c.o == om + seq![91u8];
            lead_ok(t, a, m, om);
            items_ok(l, c, d);
            let y = choose|y: Seq<u8>| #[trigger] items_doc(l, y) && d.o == c.o + y;
            let x = array(y);
            assert(doc(t, x));
            assert(b.o =~= om + x);
            assert(put(t, om, b.o));
        }
}
proof fn value_ok_record(t: T, a: S, b: S)
    requires t is Record, run(t, a, b), a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.quoted, b.f.h is None, !b.f.empty,
        a.f.tagged ==> b.f.tagged == named(t),
        exists|o1: Seq<u8>| #[trigger] lead(t, a.f.tagged, a.o, o1) && put(t, o1, b.o),
    decreases t, 0nat,
{
    if let T::Record(g, n, i, l) = t {
            let (c, d) = choose|c: S, d: S| #[trigger] st(sval::Ev::RecordBegin(None, n, i, None), a, c) && flds_run(l, c, d) && #[trigger] st(sval::Ev::RecordEnd(None, n, i), d, b);
            let (m, om) = choose|m: F, om: Seq<u8>| #[trigger] tag_begin(a.f, n, i, m, a.o, om) && a.f.quoted && c.f == (F { empty: true, ..m }) && c.o == om + seq![123u8];
            lead_ok(t, a, m, om);
            flds_ok(l, c, d);
            let y = choose|y: Seq<u8>| #[trigger] flds_doc(l, y) && d.o == c.o + y;
            let x = object(y);
            assert(doc(t, x));
            assert(b.o =~= om + x);
            assert(put(t, om, b.o));
        }
}
proof fn value_ok_tag(t: T, a: S, b: S)
    requires t is Tag, run(t, a, b), a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.quoted, b.f.h is None, !b.f.empty,
        a.f.tagged ==> b.f.tagged == named(t),
        exists|o1: Seq<u8>| #[trigger] lead(t, a.f.tagged, a.o, o1) && put(t, o1, b.o),
    decreases t, 0nat,
{
    if let T::Tag(g, n, i) = t {
            tag_ok(g, n, i, a, b);
            let x = choose|x: Seq<u8>| #[trigger] tag_doc(g, n, i, x) && b.o == a.o + x;
            assert(doc(t, x));
            assert(lead(t, a.f.tagged, a.o, a.o));
        }
}
proof fn value_ok_tagged(t: T, a: S, b: S)
    requires t is Tagged, run(t, a, b), a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.quoted, b.f.h is None, !b.f.empty,
        a.f.tagged ==> b.f.tagged == named(t),
        exists|o1: Seq<u8>| #[trigger] lead(t, a.f.tagged, a.o, o1) && put(t, o1, b.o),
    decreases t, 0nat,
{
    if let T::Tagged(g, n, i, k) = t {
            let (c, d) = choose|c: S, d: S| #[trigger] st(sval::Ev::TaggedBegin(g, n, i), a, c) && kid_run(k, c, d) && #[trigger] st(sval::Ev::TaggedEnd(g, n, i), d, b);
            let m = choose|m: F| #[trigger] tag_begin(a.f, n, i, m, a.o, c.o) && c.f == (F { empty: true, ..tag_handler(m, g) });
            lead_ok(t, a, m, c.o);
            match k {
                Kid::Nil => {
                    let e = choose|e: F| #[trigger] tag_only(tag_handler_end(d.f, g), g, n, i, e, number_end(d.f, g, d.o), b.o) && tag_end(e, n, i, b.f);
                    tag_ok(g, n, i, d, S { f: e, o: b.o });
                    let x = choose|x: Seq<u8>| #[trigger] tag_doc(g, n, i, x) && b.o == d.o + x;
                    assert(doc(t, x));
                    assert(put(t, c.o, b.o));
                },
                Kid::Some(v) => {
                    value_ok(*v, c, d);
                    let o1 = choose|o1: Seq<u8>| #[trigger] lead(*v, c.f.tagged, c.o, o1) && put(*v, o1, d.o);
                    let x = choose|x: Seq<u8>| #[trigger] doc(*v, x) && d.o == c.o + x;
                    assert(doc(t, x));
                    assert(put(t, c.o, b.o));
                },
            }
        }
}
proof fn value_ok_enum(t: T, a: S, b: S)
    requires t is Enum, run(t, a, b), a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.quoted, b.f.h is None, !b.f.empty,
        a.f.tagged ==> b.f.tagged == named(t),
        exists|o1: Seq<u8>| #[trigger] lead(t, a.f.tagged, a.o, o1) && put(t, o1, b.o),
    decreases t, 0nat,
{
    if let T::Enum(g, n, i, k) = t {
            let (c, d) = choose|c: S, d: S| #[trigger] st(sval::Ev::EnumBegin(None, n, i), a, c) && kid_run(k, c, d) && #[trigger] st(sval::Ev::EnumEnd(g, n, i), d, b);
            let m = choose|m: F| #[trigger] tag_begin(a.f, n, i, m, a.o, c.o) && c.f == (F { tagged: true, empty: true, ..m });
            lead_ok(t, a, m, c.o);
            match k {
                Kid::Nil => {
                    let (e, oe) = choose|e: F, oe: Seq<u8>| #[trigger] tag_only(d.f, g, n, i, e, d.o, oe) && enum_close(e, n, i, b.f, oe, b.o);
                    tag_ok(g, n, i, d, S { f: e, o: oe });
                    let x = choose|x: Seq<u8>| #[trigger] tag_doc(g, n, i, x) && oe == d.o + x;
                    assert(doc(t, x));
                    assert(put(t, c.o, b.o));
                },
                Kid::Some(v) => {
                    value_ok(*v, c, d);
                    let o1 = choose|o1: Seq<u8>| #[trigger] lead(*v, c.f.tagged, c.o, o1) && put(*v, o1, d.o);
                    let y = choose|y: Seq<u8>| #[trigger] doc(*v, y) && d.o == o1 + y;
                    if named(*v) {
                        let p = choose|p: Seq<u8>| #[trigger] variant_key(label_of(*v), index_of(*v), p) && o1 == c.o + p;
                        let x = wrapped(p, y);
                        assert(doc(t, x));
                        assert(b.o =~= c.o + x);
                        assert(put(t, c.o, b.o));
                    } else {
                        assert(doc(t, y));
                        assert(put(t, c.o, b.o));
                    }
                },
            }
        }
}
proof fn value_ok_number(t: T, a: S, b: S)
    requires t is Number, run(t, a, b), a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.quoted, b.f.h is None, !b.f.empty,
        a.f.tagged ==> b.f.tagged == named(t),
        exists|o1: Seq<u8>| #[trigger] lead(t, a.f.tagged, a.o, o1) && put(t, o1, b.o),
    decreases t, 0nat,
{
    if let T::Number(n, i, v) = t {
            let g = Some(sval::tags::NUMBER);
            let (c, d) = choose|c: S, d: S| #[trigger] st(sval::Ev::TaggedBegin(g, n, i), a, c) && #[trigger] text_run(v, c, d) && #[trigger] st(sval::Ev::TaggedEnd(g, n, i), d, b);
            let m = choose|m: F| #[trigger] tag_begin(a.f, n, i, m, a.o, c.o) && c.f == (F { empty: true, ..tag_handler(m, g) });
            lead_ok(t, a, m, c.o);
            number_ok(v, c, d);
            assert(doc(t, nwritten(flat(v))));
            assert(put(t, c.o, b.o));
        }
}
proof fn value_ok_raw(t: T, a: S, b: S)
    requires t is Raw, run(t, a, b), a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.quoted, b.f.h is None, !b.f.empty,
        a.f.tagged ==> b.f.tagged == named(t),
        exists|o1: Seq<u8>| #[trigger] lead(t, a.f.tagged, a.o, o1) && put(t, o1, b.o),
    decreases t, 0nat,
{
    if let T::Raw(g, n, i, v) = t {
            let (c, d) = choose|c: S, d: S| #[trigger] st(sval::Ev::TaggedBegin(Some(g), n, i), a, c) && #[trigger] text_run(v, c, d) && #[trigger] st(sval::Ev::TaggedEnd(Some(g), n, i), d, b);
            let m = choose|m: F| #[trigger] tag_begin(a.f, n, i, m, a.o, c.o) && c.f == (F { empty: true, ..tag_handler(m, Some(g)) });
            lead_ok(t, a, m, c.o);
            raw_ok(v, c, d);
            let x = if g == tags::JSON_TEXT { b_key() + flat(v) + b_key() } else { flat(v) };
            assert(doc(t, x));
            assert(d.o =~= c.o + x);
            assert(put(t, c.o, b.o));
        }
}
pub proof fn number_ok(v: Seq<Seq<char>>, c: S, d: S)
    requires text_run(v, c, d), c.f.h == Hd::Number(nstart(), false), !c.f.quoted, all_finite(flat(v)),
    ensures number_end(d.f, Some(sval::tags::NUMBER), d.o) == c.o + nwritten(flat(v)), d.f == (F { empty: false, h: d.f.h, ..c.f }), d.f.h is Number,
{
    let (x, y) = choose|x: S, y: S| #[trigger] st(sval::Ev::TextBegin(None), c, x) && frs(v, x, y) && #[trigger] st(sval::Ev::TextEnd, y, d);
    frs_number(v, x, y);
    assert(number_end(d.f, Some(sval::tags::NUMBER), d.o) =~= c.o + nwritten(flat(v)));
}
pub proof fn raw_ok(v: Seq<Seq<char>>, c: S, d: S)
    requires text_run(v, c, d), c.f.h is Native,
    ensures
        d.f == (F { empty: false, ..c.f }),
        d.o == c.o + (if c.f.quoted { b_key() + flat(v) + b_key() } else { flat(v) }),
{
    let (x, y) = choose|x: S, y: S| #[trigger] st(sval::Ev::TextBegin(None), c, x) && frs(v, x, y) && #[trigger] st(sval::Ev::TextEnd, y, d);
    frs_native(v, x, y);
    assert(d.o =~= c.o + (if c.f.quoted { b_key() + flat(v) + b_key() } else { flat(v) }));
}
pub proof fn items_ok(l: Items, a: S, b: S)
    requires items_run(l, a, b), a.f.quoted, a.f.h is None, a.f.empty,
    ensures
        b.f.quoted, b.f.h is None, b.f.empty == (l is Nil),
        exists|y: Seq<u8>| #[trigger] items_doc(l, y) && b.o == a.o + y,
    decreases l, 0nat,
{
    match l {
        Items::Nil => { assert(items_doc(l, none())); assert(a.o + none() =~= a.o); },
        Items::Snoc(r, t) => {
            let (c, d, e) = choose|c: S, d: S, e: S| items_run(*r, a, c) && #[trigger] st(sval::Ev::SeqValueBegin, c, d) && run(*t, d, e) && #[trigger] st(sval::Ev::SeqValueEnd, e, b);
            items_ok(*r, a, c);
            let y = choose|y: Seq<u8>| #[trigger] items_doc(*r, y) && c.o == a.o + y;
            value_ok(*t, d, e);
            let o1 = choose|o1: Seq<u8>| #[trigger] lead(*t, d.f.tagged, d.o, o1) && put(*t, o1, e.o);
            let x = choose|x: Seq<u8>| #[trigger] doc(*t, x) && e.o == d.o + x;
            if *r is Nil {
                assert(b.o =~= a.o + x);
                assert(items_doc(l, x));
            } else {
                let z = comma(y, x);
                assert(b.o =~= a.o + z);
                assert(items_doc(l, z));
            }
        },
    }
}
pub proof fn ents_ok(l: Ents, a: S, b: S)
    requires ents_run(l, a, b), a.f.quoted, a.f.h is None, a.f.empty,
    ensures
        b.f.quoted, b.f.h is None, b.f.empty == (l is Nil),
        exists|y: Seq<u8>| #[trigger] ents_doc(l, y) && b.o == a.o + y,
    decreases l, 0nat,
{
    match l {
        Ents::Nil => { assert(ents_doc(l, none())); assert(a.o + none() =~= a.o); },
        Ents::Snoc(r, k, v) => {
            let (c, c1, c2, d, d1, d2) = choose|c: S, c1: S, c2: S, d: S, d1: S, d2: S| ents_run(*r, a, c)
                && #[trigger] st(sval::Ev::MapKeyBegin, c, c1) && run(*k, c1, c2) && #[trigger] st(sval::Ev::MapKeyEnd, c2, d)
                && #[trigger] st(sval::Ev::MapValueBegin, d, d1) && run(*v, d1, d2) && #[trigger] st(sval::Ev::MapValueEnd, d2, b);
            ents_ok(*r, a, c);
            let y = choose|y: Seq<u8>| #[trigger] ents_doc(*r, y) && c.o == a.o + y;
            key_ok(*k, c1, c2);
            let kx = choose|x: Seq<u8>| #[trigger] key_doc(*k, x) && c2.o == c1.o + x;
            value_ok(*v, d1, d2);
            let o1 = choose|o1: Seq<u8>| #[trigger] lead(*v, d1.f.tagged, d1.o, o1) && put(*v, o1, d2.o);
            let vx = choose|x: Seq<u8>| #[trigger] doc(*v, x) && d2.o == d1.o + x;
            let z = member(y, *r is Nil, kx, vx);
            assert(b.o =~= a.o + z);
            assert(ents_doc(l, z));
        },
    }
}
pub proof fn flds_ok(l: Flds, a: S, b: S)
    requires flds_run(l, a, b), a.f.quoted, a.f.h is None, a.f.empty,
    ensures
        b.f.quoted, b.f.h is None, b.f.empty == (l is Nil),
        exists|y: Seq<u8>| #[trigger] flds_doc(l, y) && b.o == a.o + y,
    decreases l, 0nat,
{
    match l {
        Flds::Nil => { assert(flds_doc(l, none())); assert(a.o + none() =~= a.o); },
        Flds::Snoc(r, n, t) => {
            let (c, d, e) = choose|c: S, d: S, e: S| flds_run(*r, a, c) && #[trigger] st(sval::Ev::RecordValueBegin(None, n), c, d) && run(*t, d, e) && #[trigger] st(sval::Ev::MapValueEnd, e, b);
            flds_ok(*r, a, c);
            let y = choose|y: Seq<u8>| #[trigger] flds_doc(*r, y) && c.o == a.o + y;
            let q = if *r is Nil { b_key() } else { b_next_key() };
            let nx = if n.tag == Some(sval::tags::VALUE_IDENT) { encode_utf8(n.text) }
                else { choose|x: Seq<u8>| #[trigger] unesc(x) == Some(encode_utf8(n.text)) && d.o == c.o + q + x + b_colon() };
            assert(field_doc(n, nx));
            value_ok(*t, d, e);
            let o1 = choose|o1: Seq<u8>| #[trigger] lead(*t, d.f.tagged, d.o, o1) && put(*t, o1, e.o);
            let vx = choose|x: Seq<u8>| #[trigger] doc(*t, x) && e.o == d.o + x;
            let z = member(y, *r is Nil, nx, vx);
            assert(b.o =~= a.o + z);
            assert(flds_doc(l, z));
        },
    }
}
// a key: only what becomes the inside of one JSON string succeeds
pub proof fn key_ok(t: T, a: S, b: S)
    requires run(t, a, b), !a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.h is None, !b.f.empty,
        a.f.tagged ==> !b.f.tagged,
        put_key(t, a.o, b.o),
    decreases t, 1nat,
{
    match t {
        T::Leaf(ev) => key_ok_leaf(t, a, b),
        T::Text(v) => key_ok_text(t, a, b),
        T::Binary(v) => key_ok_binary(t, a, b),
        T::Seq(l) => key_ok_seq(t, a, b),
        T::Map(l) => key_ok_map(t, a, b),
        T::Tuple(g, n, i, l) => key_ok_tuple(t, a, b),
        T::Record(g, n, i, l) => key_ok_record(t, a, b),
        T::Tag(g, n, i) => key_ok_tag(t, a, b),
        T::Tagged(g, n, i, k) => key_ok_tagged(t, a, b),
        T::Enum(g, n, i, k) => key_ok_enum(t, a, b),
        T::Number(n, i, v) => key_ok_number(t, a, b),
        T::Raw(g, n, i, v) => key_ok_raw(t, a, b),
    }
}
proof fn key_ok_leaf(t: T, a: S, b: S)
    requires t is Leaf, run(t, a, b), !a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.h is None, !b.f.empty,
        a.f.tagged ==> !b.f.tagged,
        put_key(t, a.o, b.o),
    decreases t, 0nat,
{
    if let T::Leaf(ev) = t {
            leaf_writes(ev, a, b);
            let x = choose|x: Seq<u8>| #[trigger] leaf_doc(ev, x) && b.o == a.o + x;
            leaf_plain(ev, x);
            assert(key_doc(t, x));
        }
}
proof fn key_ok_text(t: T, a: S, b: S)
    requires t is Text, run(t, a, b), !a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.h is None, !b.f.empty,
        a.f.tagged ==> !b.f.tagged,
        put_key(t, a.o, b.o),
    decreases t, 0nat,
{
    if let T::Text(v) = t { text_ok(v, a, b); }
}
proof fn key_ok_binary(t: T, a: S, b: S)
    requires t is Binary, run(t, a, b), !a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.h is None, !b.f.empty,
        a.f.tagged ==> !b.f.tagged,
        put_key(t, a.o, b.o),
    decreases t, 0nat,
{
    if let T::Binary(v) = t { }
}
proof fn key_ok_seq(t: T, a: S, b: S)
    requires t is Seq, run(t, a, b), !a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.h is None, !b.f.empty,
        a.f.tagged ==> !b.f.tagged,
        put_key(t, a.o, b.o),
    decreases t, 0nat,
{
    if let T::Seq(l) = t { }
}
proof fn key_ok_map(t: T, a: S, b: S)
    requires t is Map, run(t, a, b), !a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.h is None, !b.f.empty,
        a.f.tagged ==> !b.f.tagged,
        put_key(t, a.o, b.o),
    decreases t, 0nat,
{
    if let T::Map(l) = t { }
}
proof fn key_ok_tuple(t: T, a: S, b: S)
    requires t is Tuple, run(t, a, b), !a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.h is None, !b.f.empty,
        a.f.tagged ==> !b.f.tagged,
        put_key(t, a.o, b.o),
    decreases t, 0nat,
{
    if let T::Tuple(g, n, i, l) = t { }
}
proof fn key_ok_record(t: T, a: S, b: S)
    requires t is Record, run(t, a, b), !a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.h is None, !b.f.empty,
        a.f.tagged ==> !b.f.tagged,
        put_key(t, a.o, b.o),
    decreases t, 0nat,
{
    if let T::Record(g, n, i, l) = t { }
}
proof fn key_ok_tag(t: T, a: S, b: S)
    requires t is Tag, run(t, a, b), !a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.h is None, !b.f.empty,
        a.f.tagged ==> !b.f.tagged,
        put_key(t, a.o, b.o),
    decreases t, 0nat,
{
    if let T::Tag(g, n, i) = t {
            tag_ok(g, n, i, a, b);
            let x = choose|x: Seq<u8>| #[trigger] key_tag_doc(g, n, i, x) && b.o == a.o + x;
            assert(key_doc(t, x));
        }
}
proof fn key_ok_tagged(t: T, a: S, b: S)
    requires t is Tagged, run(t, a, b), !a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.h is None, !b.f.empty,
        a.f.tagged ==> !b.f.tagged,
        put_key(t, a.o, b.o),
    decreases t, 0nat,
{
    if let T::Tagged(g, n, i, k) = t {
            let (c, d) = choose|c: S, d: S| #[trigger] st(sval::Ev::TaggedBegin(g, n, i), a, c) && kid_run(k, c, d) && #[trigger] st(sval::Ev::TaggedEnd(g, n, i), d, b);
            let m = choose|m: F| #[trigger] tag_begin(a.f, n, i, m, a.o, c.o) && c.f == (F { empty: true, ..tag_handler(m, g) });
            lead_ok(t, a, m, c.o);
            match k {
                Kid::Nil => {
                    let e = choose|e: F| #[trigger] tag_only(tag_handler_end(d.f, g), g, n, i, e, number_end(d.f, g, d.o), b.o) && tag_end(e, n, i, b.f);
                    tag_ok(g, n, i, d, S { f: e, o: b.o });
                    let x = choose|x: Seq<u8>| #[trigger] key_tag_doc(g, n, i, x) && b.o == d.o + x;
                    assert(key_doc(t, x));
                },
                Kid::Some(v) => {
                    key_ok(*v, c, d);
                    let x = choose|x: Seq<u8>| #[trigger] key_doc(*v, x) && d.o == c.o + x;
                    assert(key_doc(t, x));
                },
            }
        }
}
proof fn key_ok_enum(t: T, a: S, b: S)
    requires t is Enum, run(t, a, b), !a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.h is None, !b.f.empty,
        a.f.tagged ==> !b.f.tagged,
        put_key(t, a.o, b.o),
    decreases t, 0nat,
{
    if let T::Enum(g, n, i, k) = t {
            let (c, d) = choose|c: S, d: S| #[trigger] st(sval::Ev::EnumBegin(None, n, i), a, c) && kid_run(k, c, d) && #[trigger] st(sval::Ev::EnumEnd(g, n, i), d, b);
            let m = choose|m: F| #[trigger] tag_begin(a.f, n, i, m, a.o, c.o) && c.f == (F { tagged: true, empty: true, ..m });
            lead_ok(t, a, m, c.o);
            match k {
                Kid::Nil => {
                    let (e, oe) = choose|e: F, oe: Seq<u8>| #[trigger] tag_only(d.f, g, n, i, e, d.o, oe) && enum_close(e, n, i, b.f, oe, b.o);
                    tag_ok(g, n, i, d, S { f: e, o: oe });
                    let x = choose|x: Seq<u8>| #[trigger] key_tag_doc(g, n, i, x) && oe == d.o + x;
                    assert(key_doc(t, x));
                },
                Kid::Some(v) => {
                    key_ok(*v, c, d);
                    let x = choose|x: Seq<u8>| #[trigger] key_doc(*v, x) && d.o == c.o + x;
                    assert(key_doc(t, x));
                },
            }
        }
}
proof fn key_ok_number(t: T, a: S, b: S)
    requires t is Number, run(t, a, b), !a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.h is None, !b.f.empty,
        a.f.tagged ==> !b.f.tagged,
        put_key(t, a.o, b.o),
    decreases t, 0nat,
{
    if let T::Number(n, i, v) = t {
            let g = Some(sval::tags::NUMBER);
            let (c, d) = choose|c: S, d: S| #[trigger] st(sval::Ev::TaggedBegin(g, n, i), a, c) && #[trigger] text_run(v, c, d) && #[trigger] st(sval::Ev::TaggedEnd(g, n, i), d, b);
            let m = choose|m: F| #[trigger] tag_begin(a.f, n, i, m, a.o, c.o) && c.f == (F { empty: true, ..tag_handler(m, g) });
            lead_ok(t, a, m, c.o);
            number_ok(v, c, d);
            assert(key_doc(t, nwritten(flat(v))));
        }
}
proof fn key_ok_raw(t: T, a: S, b: S)
    requires t is Raw, run(t, a, b), !a.f.quoted, a.f.h is None, a.f.tagged ==> variant(t),
    ensures
        b.f.h is None, !b.f.empty,
        a.f.tagged ==> !b.f.tagged,
        put_key(t, a.o, b.o),
    decreases t, 0nat,
{
    if let T::Raw(g, n, i, v) = t {
            let (c, d) = choose|c: S, d: S| #[trigger] st(sval::Ev::TaggedBegin(Some(g), n, i), a, c) && #[trigger] text_run(v, c, d) && #[trigger] st(sval::Ev::TaggedEnd(Some(g), n, i), d, b);
            let m = choose|m: F| #[trigger] tag_begin(a.f, n, i, m, a.o, c.o) && c.f == (F { empty: true, ..tag_handler(m, Some(g)) });
            lead_ok(t, a, m, c.o);
            raw_ok(v, c, d);
            assert(key_doc(t, flat(v)));
        }
}
