// C01, C03, C04: what the JSON formatter does with each event.

// -- integers -----------------------------------------------------------------
pub open spec fn dec_nat(n: nat) -> Seq<u8>
    decreases n,
{ if n < 10 { seq![(48 + n) as u8] } else { dec_nat(n / 10) + seq![(48 + n % 10) as u8] } }
pub open spec fn dec(i: int) -> Seq<u8> { if i < 0 { seq![45u8] + dec_nat((-i) as nat) } else { dec_nat(i as nat) } }

pub proof fn dec_nat_reads(pre: Seq<u8>, n: nat)
    requires read_all(pre) == (Num { phase: if pre.len() == 0 { 0int } else { 1int }, neg: pre.len() > 0, ..num0() }),
    ensures ({
        let r = read_all(pre + dec_nat(n));
        r.phase == 2 && r.mant == n && r.neg == (pre.len() > 0) && !r.plus && r.scale == 0 && r.exp == 0 && !r.eneg
        && r.ilen >= 1 && r.izero == (n == 0) && (n < 10 ==> r.ilen == 1)
    }),
    decreases n,
{
    if n < 10 {
        read_append(pre, (48 + n) as u8);
    } else {
        dec_nat_reads(pre, n / 10);
        let d = (48 + n % 10) as u8;
        assert(pre + dec_nat(n) =~= (pre + dec_nat(n / 10)) + seq![d]);
        read_append(pre + dec_nat(n / 10), d);
        assert((n / 10) * 10 + n % 10 == n) by (nonlinear_arith);
    }
}
// C03 for integers: their decimal text is a JSON number of exactly their value.
pub proof fn integer_is_exact(i: int)
    ensures
        is_json_number(dec(i)),
        read_all(dec(i)).mant == (if i < 0 { -i } else { i }),
        read_all(dec(i)).neg == (i < 0),
        read_all(dec(i)).scale == 0 && read_all(dec(i)).exp == 0,
{
    if i < 0 {
        reveal_with_fuel(read_all, 2);
        assert(seq![45u8].drop_last() =~= Seq::empty());
        dec_nat_reads(seq![45u8], (-i) as nat);
    } else {
        dec_nat_reads(Seq::empty(), i as nat);
        assert(Seq::<u8>::empty() + dec_nat(i as nat) =~= dec_nat(i as nat));
    }
}
pub trait Integer: Sized { spec fn int(self) -> int; }
impl Integer for u8 { open spec fn int(self) -> int { self as int } }
impl Integer for u16 { open spec fn int(self) -> int { self as int } }
impl Integer for u32 { open spec fn int(self) -> int { self as int } }
impl Integer for u64 { open spec fn int(self) -> int { self as int } }
impl Integer for u128 { open spec fn int(self) -> int { self as int } }
impl Integer for i8 { open spec fn int(self) -> int { self as int } }
impl Integer for i16 { open spec fn int(self) -> int { self as int } }
impl Integer for i32 { open spec fn int(self) -> int { self as int } }
impl Integer for i64 { open spec fn int(self) -> int { self as int } }
impl Integer for i128 { open spec fn int(self) -> int { self as int } }
// the `itoa` and `ryu` crates (assumed; the stand-in compares them with the standard library)
#[verifier::external_body]
pub fn itoa_format<I: Integer>(v: I) -> (r: &'static str)
    ensures r.spec_bytes() == dec(v.int()),
{ unimplemented!() }
pub trait Float: Sized { spec fn finite(self) -> bool; spec fn shortest(self) -> Seq<u8>; }
pub uninterp spec fn finite32(v: f32) -> bool;
pub uninterp spec fn finite64(v: f64) -> bool;
pub uninterp spec fn shortest32(v: f32) -> Seq<u8>;
pub uninterp spec fn shortest64(v: f64) -> Seq<u8>;
impl Float for f32 { open spec fn finite(self) -> bool { finite32(self) } open spec fn shortest(self) -> Seq<u8> { shortest32(self) } }
impl Float for f64 { open spec fn finite(self) -> bool { finite64(self) } open spec fn shortest(self) -> Seq<u8> { shortest64(self) } }
#[verifier::external_body]
pub fn ryu_format_finite<T: Float>(v: T) -> (r: &'static str)
    requires v.finite(),
    ensures r.spec_bytes() == v.shortest(), is_json_number(v.shortest()),
{ unimplemented!() }
#[verifier::external_body]
pub fn nan_or_infinite<T: Float>(v: T) -> (r: bool)
    ensures r == !v.finite(),
{ unimplemented!() }

pub fn index_i64(index: Option<&sval::Index>) -> (r: Option<i64>)
    ensures r == oi64(sval::oi(index)),
{ match index { Some(ix) => ix.to_i64(), None => None } }
pub open spec fn oi64(index: Option<sval::IndexV>) -> Option<i64> {
    match index { Some(ix) => if i64::MIN <= ix.num <= i64::MAX { Some(ix.num as i64) } else { None }, None => None }
}

// -- the formatter -------------------------------------------------------------
pub ghost enum Hd { None, Native, Number(Nh, bool) }
pub ghost struct F { pub tagged: bool, pub empty: bool, pub quoted: bool, pub h: Hd }

// text written as (part of) a JSON string between two fixed pieces
pub open spec fn wrote(o: Seq<u8>, o2: Seq<u8>, pre: Seq<u8>, text: Seq<u8>, post: Seq<u8>) -> bool {
    exists|x: Seq<u8>| #[trigger] unesc(x) == Some(text) && o2 == o + pre + x + post
}
pub broadcast proof fn wrote_quoted(o: Seq<u8>, o1: Seq<u8>, o2: Seq<u8>, o3: Seq<u8>, pre: Seq<u8>, text: Seq<u8>, post: Seq<u8>)
    requires o1 =~= o + pre, #[trigger] quoted(o1, o2, text), o3 =~= o2 + post,
    ensures #[trigger] wrote(o, o3, pre, text, post),
{
    let x = o2.skip(o1.len() as int);
    assert(o2 =~= o1 + x) by {
        assert forall|i: int| 0 <= i < o1.len() implies o2[i] == o1[i] by { assert(o2.take(o1.len() as int)[i] == o1[i]); }
    }
    assert(o3 =~= o + pre + x + post);
}

pub open spec fn b_null() -> Seq<u8> { seq![110u8, 117u8, 108u8, 108u8] }
pub open spec fn b_true() -> Seq<u8> { seq![116u8, 114u8, 117u8, 101u8] }
pub open spec fn b_false() -> Seq<u8> { seq![102u8, 97u8, 108u8, 115u8, 101u8] }
pub open spec fn b_key() -> Seq<u8> { seq![34u8] }
pub open spec fn b_next_key() -> Seq<u8> { seq![44u8, 34u8] }
pub open spec fn b_colon() -> Seq<u8> { seq![34u8, 58u8] }
pub open spec fn none() -> Seq<u8> { Seq::empty() }
pub open spec fn b_open_key() -> Seq<u8> { seq![123u8, 34u8] }

// A single value that is not a container, or the start or end of one: fixed bytes.
pub open spec fn lit(f: F, f2: F, o: Seq<u8>, o2: Seq<u8>, w: Seq<u8>) -> bool { f2 == (F { empty: false, ..f }) && o2 == o + w }
pub open spec fn same(f: F, f2: F, o: Seq<u8>, o2: Seq<u8>, w: Seq<u8>) -> bool { f2 == f && o2 == o + w }

// A tag, enum or container that is the content of an enum: its label or index is the
// only key of an object around it.
pub open spec fn tag_begin(f: F, label: Option<sval::LabelV>, index: Option<sval::IndexV>, f2: F, o: Seq<u8>, o2: Seq<u8>) -> bool {
    if f.tagged && label.is_some() {
        f.quoted && f2 == (F { tagged: false, empty: true, ..f }) && wrote(o, o2, b_open_key(), encode_utf8(label.unwrap().text), b_colon())
    } else if f.tagged && oi64(index).is_some() {
        f.quoted && f2 == (F { tagged: false, empty: false, ..f }) && o2 == o + b_open_key() + dec(oi64(index).unwrap() as int) + b_colon()
    } else {
        f2 == (F { tagged: false, ..f }) && o2 == o
    }
}
pub open spec fn tag_end(f: F, label: Option<sval::LabelV>, index: Option<sval::IndexV>, f2: F) -> bool {
    f2 == (F { tagged: label.is_some() || oi64(index).is_some(), ..f })
}
// A tag without content
pub open spec fn tag_only(f: F, tag: Option<sval::Tag>, label: Option<sval::LabelV>, index: Option<sval::IndexV>, f2: F, o: Seq<u8>, o2: Seq<u8>) -> bool {
    &&& f2.tagged == false && f2.empty == false && f2.quoted == f.quoted
    &&& if tag == Some(sval::tags::RUST_OPTION_NONE) { f2.h == f.h && o2 == o + b_null() }
        else if label.is_some() {
            if f.h is None {
                f2.h == f.h && wrote(o, o2, if f.quoted { b_key() } else { none() }, encode_utf8(label.unwrap().text), if f.quoted { b_key() } else { none() })
            } else { true }
        }
        else if oi64(index).is_some() { f2.h == f.h && o2 == o + dec(oi64(index).unwrap() as int) }
        else { f2.h == f.h && o2 == o + b_null() }
}

pub open spec fn bad_key(f: F, ev: sval::Ev) -> bool {
    &&& !f.quoted
    &&& match ev {
        sval::Ev::MapBegin(_) => true,
        sval::Ev::SeqBegin(_) => true,
        sval::Ev::BinaryBegin(_) => true,
        sval::Ev::RecordBegin(_, _, _, _) => true,
        sval::Ev::RecordTupleBegin(_, _, _, _) => true,
        sval::Ev::TupleBegin(_, _, _, _) => true,
        sval::Ev::EnumBegin(_, l, i) => f.tagged && (l.is_some() || oi64(i).is_some()),
        sval::Ev::TaggedBegin(_, l, i) => f.tagged && (l.is_some() || oi64(i).is_some()),
        _ => false,
    }
}
pub open spec fn tag_handler(f: F, tag: Option<sval::Tag>) -> F {
    if tag == Some(tags::JSON_TEXT) { F { h: Hd::Native, ..f } }
    else if tag == Some(tags::JSON_VALUE) { F { quoted: false, h: Hd::Native, ..f } }
    else if tag == Some(sval::tags::NUMBER) { F { quoted: false, h: if f.h is None { Hd::Number(nstart(), false) } else { f.h }, ..f } }
    else if tag == Some(tags::JSON_NUMBER) { F { quoted: false, h: Hd::Native, ..f } }
    else { f }
}
pub open spec fn tag_handler_end(f: F, tag: Option<sval::Tag>) -> F {
    if tag == Some(tags::JSON_TEXT) { F { h: Hd::None, ..f } }
    else if tag == Some(tags::JSON_VALUE) || tag == Some(sval::tags::NUMBER) || tag == Some(tags::JSON_NUMBER) { F { quoted: true, h: Hd::None, ..f } }
    else { f }
}
pub open spec fn fragment(f: F, f2: F, o: Seq<u8>, o2: Seq<u8>, text: Seq<u8>) -> bool {
    &&& f2 == (F { h: f2.h, ..f })
    &&& match f.h {
        Hd::None => f2.h == f.h && quoted(o, o2, text),
        Hd::Native => f2.h == f.h && o2 == o + text,
        Hd::Number(s, nan) => f2.h is Number && number_piece(s, nan, f2.h->Number_0, f2.h->Number_1, text, o, o2),
    }
}
pub open spec fn jstep(f: F, ev: sval::Ev, f2: F, o: Seq<u8>, o2: Seq<u8>) -> bool {
    match ev {
        sval::Ev::Null => lit(f, f2, o, o2, b_null()),
        sval::Ev::Bool(v) => lit(f, f2, o, o2, if v { b_true() } else { b_false() }),
        sval::Ev::U8(v) => lit(f, f2, o, o2, dec(v as int)),
        sval::Ev::U16(v) => lit(f, f2, o, o2, dec(v as int)),
        sval::Ev::U32(v) => lit(f, f2, o, o2, dec(v as int)),
        sval::Ev::U64(v) => lit(f, f2, o, o2, dec(v as int)),
        sval::Ev::U128(v) => lit(f, f2, o, o2, dec(v as int)),
        sval::Ev::I8(v) => lit(f, f2, o, o2, dec(v as int)),
        sval::Ev::I16(v) => lit(f, f2, o, o2, dec(v as int)),
        sval::Ev::I32(v) => lit(f, f2, o, o2, dec(v as int)),
        sval::Ev::I64(v) => lit(f, f2, o, o2, dec(v as int)),
        sval::Ev::I128(v) => lit(f, f2, o, o2, dec(v as int)),
        sval::Ev::F32(v) => lit(f, f2, o, o2, if finite32(v) { shortest32(v) } else { b_null() })
            && (finite32(v) ==> is_json_number(shortest32(v))),
        sval::Ev::F64(v) => lit(f, f2, o, o2, if finite64(v) { shortest64(v) } else { b_null() })
            && (finite64(v) ==> is_json_number(shortest64(v))),
        sval::Ev::TextBegin(_) => lit(f, f2, o, o2, if f.quoted { b_key() } else { none() }),
        sval::Ev::TextFragment(s, _) => fragment(f, f2, o, o2, encode_utf8(s)),
        sval::Ev::TextEnd => same(f, f2, o, o2, if f.quoted { b_key() } else { none() }),
        sval::Ev::MapBegin(_) => f.quoted && f2 == (F { empty: true, ..f }) && o2 == o + seq![123u8],
        sval::Ev::MapKeyBegin => f2 == (F { quoted: false, tagged: false, ..f }) && o2 == o + (if f.empty { b_key() } else { b_next_key() }),
        sval::Ev::MapKeyEnd => f2 == (F { quoted: true, ..f }) && o2 == o + b_colon(),
        sval::Ev::MapValueBegin => f2 == (F { tagged: false, ..f }) && o2 == o,
        sval::Ev::MapValueEnd => f2 == f && o2 == o,
        sval::Ev::MapEnd => lit(f, f2, o, o2, seq![125u8]),
        sval::Ev::SeqBegin(_) => f.quoted && f2 == (F { empty: true, ..f }) && o2 == o + seq![91u8],
        sval::Ev::SeqValueBegin => f2 == (F { tagged: false, ..f }) && o2 == o + (if f.empty { none() } else { seq![44u8] }),
        sval::Ev::SeqValueEnd => f2 == f && o2 == o,
        sval::Ev::SeqEnd => lit(f, f2, o, o2, seq![93u8]),
        sval::Ev::EnumBegin(_, l, i) => exists|m: F| #[trigger] tag_begin(f, l, i, m, o, o2) && f2 == (F { tagged: true, empty: true, ..m }),
        sval::Ev::EnumEnd(t, l, i) =>
            if f.empty { exists|m: F, om: Seq<u8>| #[trigger] tag_only(f, t, l, i, m, o, om) && enum_close(m, l, i, f2, om, o2) }
            else { enum_close(f, l, i, f2, o, o2) },
        sval::Ev::TaggedBegin(t, l, i) => exists|m: F| #[trigger] tag_begin(f, l, i, m, o, o2) && f2 == (F { empty: true, ..tag_handler(m, t) }),
        sval::Ev::TaggedEnd(t, l, i) =>
            // (the first two conjuncts only name terms for the solver)
            tag_handler_end(f, t).empty == f.empty && number_end(f, t, o).len() >= o.len() &&
            if f.empty { exists|m: F| #[trigger] tag_only(tag_handler_end(f, t), t, l, i, m, number_end(f, t, o), o2) && tag_end(m, l, i, f2) }
            else { o2 == number_end(f, t, o) && tag_end(tag_handler_end(f, t), l, i, f2) },
        sval::Ev::Tag(t, l, i) => tag_only(f, t, l, i, f2, o, o2),
        sval::Ev::RecordBegin(_, l, i, _) => exists|m: F, om: Seq<u8>| #[trigger] tag_begin(f, l, i, m, o, om)
            && f.quoted && f2 == (F { empty: true, ..m }) && o2 == om + seq![123u8],
        sval::Ev::RecordValueBegin(_, l) => f2 == (F { tagged: false, ..f }) && (
            if l.tag == Some(sval::tags::VALUE_IDENT) { o2 == o + (if f.empty { b_key() } else { b_next_key() }) + encode_utf8(l.text) + b_colon() }
            else { wrote(o, o2, if f.empty { b_key() } else { b_next_key() }, encode_utf8(l.text), b_colon()) }),
        sval::Ev::RecordEnd(_, l, i) => tag_end(F { empty: false, ..f }, l, i, f2) && o2 == o + seq![125u8],
        sval::Ev::TupleBegin(_, l, i, _) => exists|m: F, om: Seq<u8>| #[trigger] tag_begin(f, l, i, m, o, om)
            && f.quoted && f2 == (F { empty: true, ..m }) && o2 == om + seq![91u8],
        sval::Ev::TupleEnd(_, l, i) => tag_end(F { empty: false, ..f }, l, i, f2) && o2 == o + seq![93u8],
        // the events the formatter leaves to the defaults
        sval::Ev::TagHint(_) => f2 == f && o2 == o,
        sval::Ev::BinaryBegin(_) => f.quoted && f2 == (F { empty: true, ..f }) && o2 == o + seq![91u8],
        sval::Ev::BinaryFragment(s, _) => f2 == bytes_f(f, s) && o2 == o + bytes_out(s, f.empty),
        sval::Ev::BinaryEnd => lit(f, f2, o, o2, seq![93u8]),
        sval::Ev::RecordValueEnd(_, _) => f2 == f && o2 == o,
        sval::Ev::TupleValueBegin(_, _) => f2 == (F { tagged: false, ..f }) && o2 == o + (if f.empty { none() } else { seq![44u8] }),
        sval::Ev::TupleValueEnd(_, _) => f2 == f && o2 == o,
        sval::Ev::RecordTupleBegin(_, l, i, _) => exists|m: F, om: Seq<u8>| #[trigger] tag_begin(f, l, i, m, o, om)
            && f.quoted && f2 == (F { empty: true, ..m }) && o2 == om + seq![123u8],
        sval::Ev::RecordTupleValueBegin(_, l, _) => f2 == (F { tagged: false, ..f }) && (
            if l.tag == Some(sval::tags::VALUE_IDENT) { o2 == o + (if f.empty { b_key() } else { b_next_key() }) + encode_utf8(l.text) + b_colon() }
            else { wrote(o, o2, if f.empty { b_key() } else { b_next_key() }, encode_utf8(l.text), b_colon()) }),
        sval::Ev::RecordTupleValueEnd(_, _, _) => f2 == f && o2 == o,
        sval::Ev::RecordTupleEnd(_, l, i) => tag_end(F { empty: false, ..f }, l, i, f2) && o2 == o + seq![125u8],
    }
}
// bytes are the numbers of an array
pub open spec fn bytes_out(s: Seq<u8>, first: bool) -> Seq<u8>
    decreases s.len(),
{ if s.len() == 0 { none() } else { bytes_out(s.drop_last(), first) + (if first && s.len() == 1 { none() } else { seq![44u8] }) + dec(s.last() as int) } }
pub open spec fn bytes_f(f: F, s: Seq<u8>) -> F { if s.len() == 0 { f } else { F { tagged: false, empty: false, ..f } } }
pub open spec fn enum_close(m: F, l: Option<sval::LabelV>, i: Option<sval::IndexV>, f2: F, o: Seq<u8>, o2: Seq<u8>) -> bool {
    if m.tagged { tag_end(F { empty: false, ..m }, l, i, f2) && o2 == o + seq![125u8] } else { tag_end(m, l, i, f2) && o2 == o }
}
pub open spec fn number_end(f: F, t: Option<sval::Tag>, o: Seq<u8>) -> Seq<u8> {
    if t == Some(sval::tags::NUMBER) && f.h is Number && f.h->Number_0.at_start { o + seq![48u8] } else { o }
}
pub open spec fn touches_handler(ev: sval::Ev) -> bool {
    match ev {
        sval::Ev::TextFragment(_, _) => true,
        sval::Ev::Tag(_, _, _) => true,
        sval::Ev::EnumEnd(_, _, _) => true,
        sval::Ev::TaggedBegin(_, _, _) => true,
        sval::Ev::TaggedEnd(_, _, _) => true,
        _ => false,
    }
}
