use crate::*;
use sval::{Stream, Value};

/// Any tag, or none.
pub fn any_tag(g: &mut Gen) -> Tg {
    match g.choose(4) {
        0 => None,
        1 => Some(&T_A),
        2 => Some(&T_NONE),
        _ => Some(&T_NUMBER),
    }
}
pub fn any_lab(g: &mut Gen) -> Lab<'static> {
    let text: &'static str = if g.bool() { "l" } else { "" };
    Lab { text, stat: if g.bool() { Some(text) } else { None }, tag: if g.bool() { Some(&T_IDENT) } else { None } }
}
pub fn any_ix(g: &mut Gen) -> Ix {
    Ix { v: g.isize(), tag: if g.bool() { Some(&T_OFFSET) } else { None } }
}
pub fn any_olab(g: &mut Gen) -> OLab<'static> {
    if g.bool() { Some(any_lab(g)) } else { None }
}
pub fn any_oix(g: &mut Gen) -> OIx {
    if g.bool() { Some(any_ix(g)) } else { None }
}

/// Any single call to a stream, with any arguments.
pub fn any_event(g: &mut Gen) -> Ev<'static> {
    let k = g.choose(N_EVENTS);
    event_k(g, k)
}

/// The k-th kind of call, with any arguments.
pub fn event_k(g: &mut Gen, k: usize) -> Ev<'static> {
    match k {
        0 => Ev::Null,
        1 => Ev::Bool(g.bool()),
        2 => Ev::U8(g.u8()),
        3 => Ev::U16(g.u16()),
        4 => Ev::U32(g.u32()),
        5 => Ev::U64(g.u64()),
        6 => Ev::U128(g.u128()),
        7 => Ev::I8(g.i8()),
        8 => Ev::I16(g.i16()),
        9 => Ev::I32(g.i32()),
        10 => Ev::I64(g.i64()),
        11 => Ev::I128(g.i128()),
        12 => Ev::F32(g.f32()),
        13 => Ev::F64(g.f64()),
        14 => Ev::TextBegin(g.opt_usize()),
        15 => Ev::Text("t"),
        16 => Ev::TextComputed("c"),
        17 => Ev::TextEnd,
        18 => Ev::BinaryBegin(g.opt_usize()),
        19 => Ev::Binary(b"b"),
        20 => Ev::BinaryComputed(b"d"),
        21 => Ev::BinaryEnd,
        22 => Ev::MapBegin(g.opt_usize()),
        23 => Ev::MapKeyBegin,
        24 => Ev::MapKeyEnd,
        25 => Ev::MapValueBegin,
        26 => Ev::MapValueEnd,
        27 => Ev::MapEnd,
        28 => Ev::SeqBegin(g.opt_usize()),
        29 => Ev::SeqValueBegin,
        30 => Ev::SeqValueEnd,
        31 => Ev::SeqEnd,
        32 => Ev::EnumBegin(any_tag(g), any_olab(g), any_oix(g)),
        33 => Ev::EnumEnd(any_tag(g), any_olab(g), any_oix(g)),
        34 => Ev::TaggedBegin(any_tag(g), any_olab(g), any_oix(g)),
        35 => Ev::TaggedEnd(any_tag(g), any_olab(g), any_oix(g)),
        36 => Ev::Tag(any_tag(g), any_olab(g), any_oix(g)),
        37 => Ev::TagHint(&T_B),
        38 => Ev::RecordBegin(any_tag(g), any_olab(g), any_oix(g), g.opt_usize()),
        39 => Ev::RecordValueBegin(any_tag(g), any_lab(g)),
        40 => Ev::RecordValueEnd(any_tag(g), any_lab(g)),
        41 => Ev::RecordEnd(any_tag(g), any_olab(g), any_oix(g)),
        42 => Ev::TupleBegin(any_tag(g), any_olab(g), any_oix(g), g.opt_usize()),
        43 => Ev::TupleValueBegin(any_tag(g), any_ix(g)),
        44 => Ev::TupleValueEnd(any_tag(g), any_ix(g)),
        45 => Ev::TupleEnd(any_tag(g), any_olab(g), any_oix(g)),
        46 => Ev::RecordTupleBegin(any_tag(g), any_olab(g), any_oix(g), g.opt_usize()),
        47 => Ev::RecordTupleValueBegin(any_tag(g), any_lab(g), any_ix(g)),
        48 => Ev::RecordTupleValueEnd(any_tag(g), any_lab(g), any_ix(g)),
        _ => Ev::RecordTupleEnd(any_tag(g), any_olab(g), any_oix(g)),
    }
}


fn fail_point(g: &mut Gen, n: usize) -> Option<usize> {
    let k = g.choose(n + 1);
    if k < n { Some(k) } else { None }
}

/// Check one call made through some adapter: exactly the same call arrives, and its result comes back.
macro_rules! forward {
    ($g:ident, $range:expr, |$e:ident, $x:ident| $call:expr) => {{
        for k in $range {
            let $e = event_k($g, k);
            let want = [$e];
            let fail = fail_point($g, 1);
            let mut $x = Expect::failing(&want, fail);
            let r: sval::Result = $call;
            $x.done(r);
        }
    }};
}

/// What a stream that only understands null, bools, 64bit numbers, text and sequences sees for a call.
pub fn degrade<'a>(e: &Ev<'a>) -> List<'a> {
    use Ev::*;
    fn text<'a>(l: &Lab<'a>) -> [Ev<'a>; 3] {
        [TextBegin(Some(l.text.len())), TextComputed(l.text), TextEnd]
    }
    match *e {
        Null | Bool(_) | I64(_) | F64(_) | TextBegin(_) | TextComputed(_) | TextEnd => List::of(&[*e]),
        SeqBegin(_) | SeqValueBegin | SeqValueEnd | SeqEnd => List::of(&[*e]),
        U8(_) | U16(_) | U32(_) | U64(_) | U128(_) | I8(_) | I16(_) | I32(_) | I128(_) | F32(_) => List::of(&[*e]),
        Text(t) => List::of(&[TextComputed(t)]),
        BinaryBegin(h) | MapBegin(h) => List::of(&[SeqBegin(h)]),
        BinaryEnd | MapEnd => List::of(&[SeqEnd]),
        Binary(b) | BinaryComputed(b) => {
            let mut l = List::of(&[]);
            for x in b {
                l.a[l.n] = SeqValueBegin;
                l.a[l.n + 1] = U8(*x);
                l.a[l.n + 2] = SeqValueEnd;
                l.n += 3;
            }
            l
        }
        MapKeyBegin => List::of(&[SeqValueBegin, SeqBegin(Some(2)), SeqValueBegin]),
        MapKeyEnd => List::of(&[SeqValueEnd]),
        MapValueBegin => List::of(&[SeqValueBegin]),
        MapValueEnd => List::of(&[SeqValueEnd, SeqEnd, SeqValueEnd]),
        EnumBegin(..) | EnumEnd(..) | TaggedBegin(..) | TaggedEnd(..) | TagHint(_) => List::of(&[]),
        Tag(t, l, _) => match l {
            Some(l) if !same_tag(t, Some(&T_NONE)) => List::of(&text(&l)),
            _ => List::of(&[Null]),
        },
        RecordBegin(_, _, _, h) | TupleBegin(_, _, _, h) | RecordTupleBegin(_, _, _, h) => List::of(&[SeqBegin(h)]),
        RecordValueBegin(_, l) | RecordTupleValueBegin(_, l, _) => {
            let t = text(&l);
            List::of(&[SeqValueBegin, SeqBegin(Some(2)), SeqValueBegin, t[0], t[1], t[2], SeqValueEnd, SeqValueBegin])
        }
        RecordValueEnd(..) | RecordTupleValueEnd(..) => List::of(&[SeqValueEnd, SeqEnd, SeqValueEnd]),
        RecordEnd(..) | TupleEnd(..) | RecordTupleEnd(..) => List::of(&[SeqEnd]),
        TupleValueBegin(..) => List::of(&[SeqValueBegin]),
        TupleValueEnd(..) => List::of(&[SeqValueEnd]),
        Sub(_) | SubComputed(_) | Fail => List::of(&[]),
    }
}

/// Numbers compare numerically: the narrower call arrives as a wider one of equal value.
const NUMERIC: Lax = Lax { num: true, ..STRICT };

macro_rules! degrade {
    ($g:ident, $range:expr) => {{
        for k in $range {
            let e = event_k($g, k);
            // integers that don't fit 64 bits take the text route, which has its own harness
            if let Some((neg, m)) = e.int() {
                if (neg && m > 1u128 << 63) || (!neg && m >= 1u128 << 63) {
                    continue;
                }
            }
            let want = degrade(&e);
            let fail = fail_point($g, want.n);
            let mut x = Min(Expect::failing(want.get(), fail).lax(NUMERIC));
            let r = e.emit(&mut x);
            x.0.done(r);
        }
    }};
}

/// One level of the documented defaults, as seen by a stream that implements every method.
pub fn default_emit<'a: 's, 's, S: sval::Stream<'s>>(e: &'s Ev<'a>, s: &mut S) -> sval::Result {
    use sval::default_stream as d;
    match *e {
        Ev::U8(v) => d::u8(s, v),
        Ev::U16(v) => d::u16(s, v),
        Ev::U32(v) => d::u32(s, v),
        Ev::U64(v) => d::u64(s, v),
        Ev::U128(v) => d::u128(s, v),
        Ev::I8(v) => d::i8(s, v),
        Ev::I16(v) => d::i16(s, v),
        Ev::I32(v) => d::i32(s, v),
        Ev::I128(v) => d::i128(s, v),
        Ev::F32(v) => d::f32(s, v),
        Ev::Text(t) => d::text_fragment(s, t),
        Ev::BinaryBegin(h) => d::binary_begin(s, h),
        Ev::Binary(b) => d::binary_fragment(s, b),
        Ev::BinaryComputed(b) => d::binary_fragment_computed(s, b),
        Ev::BinaryEnd => d::binary_end(s),
        Ev::MapBegin(h) => d::map_begin(s, h),
        Ev::MapKeyBegin => d::map_key_begin(s),
        Ev::MapKeyEnd => d::map_key_end(s),
        Ev::MapValueBegin => d::map_value_begin(s),
        Ev::MapValueEnd => d::map_value_end(s),
        Ev::MapEnd => d::map_end(s),
        Ev::EnumBegin(t, l, i) => with3(&l, &i, |l, i| d::enum_begin(s, t, l, i)),
        Ev::EnumEnd(t, l, i) => with3(&l, &i, |l, i| d::enum_end(s, t, l, i)),
        Ev::TaggedBegin(t, l, i) => with3(&l, &i, |l, i| d::tagged_begin(s, t, l, i)),
        Ev::TaggedEnd(t, l, i) => with3(&l, &i, |l, i| d::tagged_end(s, t, l, i)),
        Ev::Tag(t, l, i) => with3(&l, &i, |l, i| d::tag(s, t, l, i)),
        Ev::TagHint(t) => d::tag_hint(s, t),
        Ev::RecordBegin(t, l, i, h) => with3(&l, &i, |l, i| d::record_begin(s, t, l, i, h)),
        Ev::RecordValueBegin(t, l) => d::record_value_begin(s, t, &l.to()),
        Ev::RecordValueEnd(t, l) => d::record_value_end(s, t, &l.to()),
        Ev::RecordEnd(t, l, i) => with3(&l, &i, |l, i| d::record_end(s, t, l, i)),
        Ev::TupleBegin(t, l, i, h) => with3(&l, &i, |l, i| d::tuple_begin(s, t, l, i, h)),
        Ev::TupleValueBegin(t, i) => d::tuple_value_begin(s, t, &i.to()),
        Ev::TupleValueEnd(t, i) => d::tuple_value_end(s, t, &i.to()),
        Ev::TupleEnd(t, l, i) => with3(&l, &i, |l, i| d::tuple_end(s, t, l, i)),
        Ev::RecordTupleBegin(t, l, i, h) => with3(&l, &i, |l, i| d::record_tuple_begin(s, t, l, i, h)),
        Ev::RecordTupleValueBegin(t, l, i) => d::record_tuple_value_begin(s, t, &l.to(), &i.to()),
        Ev::RecordTupleValueEnd(t, l, i) => d::record_tuple_value_end(s, t, &l.to(), &i.to()),
        Ev::RecordTupleEnd(t, l, i) => with3(&l, &i, |l, i| d::record_tuple_end(s, t, l, i)),
        // required methods have no default
        _ => e.emit(s),
    }
}

pub fn one_level<'a>(e: &Ev<'a>) -> List<'a> {
    use Ev::*;
    fn text<'a>(l: &Lab<'a>) -> [Ev<'a>; 3] {
        [TextBegin(Some(l.text.len())), if l.stat.is_some() { Text(l.text) } else { TextComputed(l.text) }, TextEnd]
    }
    match *e {
        Binary(b) => List::of(&[BinaryComputed(b)]),
        EnumBegin(t, l, i) => List::of(&[TaggedBegin(t, l, i)]),
        EnumEnd(t, l, i) => List::of(&[TaggedEnd(t, l, i)]),
        Tag(t, l, i) => match l {
            Some(lb) if !same_tag(t, Some(&T_NONE)) => {
                let x = text(&lb);
                List::of(&[TaggedBegin(t, l, i), x[0], x[1], x[2], TaggedEnd(t, l, i)])
            }
            _ => List::of(&[TaggedBegin(t, l, i), Null, TaggedEnd(t, l, i)]),
        },
        MapKeyBegin => List::of(&[SeqValueBegin, TupleBegin(None, None, None, Some(2)), TupleValueBegin(None, Ix::n(0))]),
        MapKeyEnd => List::of(&[TupleValueEnd(None, Ix::n(0))]),
        MapValueBegin => List::of(&[TupleValueBegin(None, Ix::n(1))]),
        MapValueEnd => List::of(&[TupleValueEnd(None, Ix::n(1)), TupleEnd(None, None, None), SeqValueEnd]),
        RecordBegin(t, l, i, h) => List::of(&[TaggedBegin(t, l, i), MapBegin(h)]),
        RecordValueBegin(_, l) => {
            let x = text(&l);
            List::of(&[MapKeyBegin, x[0], x[1], x[2], MapKeyEnd, MapValueBegin])
        }
        RecordValueEnd(..) => List::of(&[MapValueEnd]),
        RecordEnd(t, l, i) => List::of(&[MapEnd, TaggedEnd(t, l, i)]),
        TupleBegin(t, l, i, h) => List::of(&[TaggedBegin(t, l, i), SeqBegin(h)]),
        TupleEnd(t, l, i) => List::of(&[SeqEnd, TaggedEnd(t, l, i)]),
        RecordTupleBegin(t, l, i, h) => List::of(&[RecordBegin(t, l, i, h)]),
        RecordTupleValueBegin(t, l, _) => List::of(&[RecordValueBegin(t, l)]),
        RecordTupleValueEnd(t, l, _) => List::of(&[RecordValueEnd(t, l)]),
        RecordTupleEnd(t, l, i) => List::of(&[RecordEnd(t, l, i)]),
        _ => degrade(e),
    }
}

macro_rules! one_level {
    ($g:ident, $range:expr) => {{
        for k in $range {
            let e = event_k($g, k);
            if let Some((neg, m)) = e.int() {
                if (neg && m > 1u128 << 63) || (!neg && m >= 1u128 << 63) {
                    continue;
                }
            }
            let want = one_level(&e);
            let fail = fail_point($g, want.n);
            let mut x = Expect::failing(want.get(), fail).lax(NUMERIC);
            let r = default_emit(&e, &mut x);
            x.done(r);
        }
    }};
}

/// A value whose conversions all go through the provided implementations.
pub struct Opaque<T>(pub T);
impl<T: Value> Value for Opaque<T> {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, stream: &mut S) -> sval::Result {
        stream.value(&self.0)
    }
}
pub struct OpaqueComputed<T>(pub T);
impl<T: Value> Value for OpaqueComputed<T> {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, stream: &mut S) -> sval::Result {
        stream.value_computed(&self.0)
    }
}

/// All the integer conversions of a value known to be the non-negative `v`, streamed as unsigned.
pub fn check_unsigned(x: &(impl Value + ?Sized), v: u128) {
    assert!(x.to_u8() == u8::try_from(v).ok());
    assert!(x.to_u16() == u16::try_from(v).ok());
    assert!(x.to_u32() == u32::try_from(v).ok());
    assert!(x.to_u64() == u64::try_from(v).ok());
    assert!(x.to_u128() == Some(v));
    // a conversion may decline, but never produce a different number
    if let Some(i) = x.to_i8() { assert!(i8::try_from(v) == Ok(i)); }
    if let Some(i) = x.to_i16() { assert!(i16::try_from(v) == Ok(i)); }
    if let Some(i) = x.to_i32() { assert!(i32::try_from(v) == Ok(i)); }
    if let Some(i) = x.to_i64() { assert!(i64::try_from(v) == Ok(i)); }
    if let Some(i) = x.to_i128() { assert!(i128::try_from(v) == Ok(i)); }
    check_not_other(x, true);
}
pub fn check_signed(x: &(impl Value + ?Sized), v: i128) {
    assert!(x.to_i8() == i8::try_from(v).ok());
    assert!(x.to_i16() == i16::try_from(v).ok());
    assert!(x.to_i32() == i32::try_from(v).ok());
    assert!(x.to_i64() == i64::try_from(v).ok());
    assert!(x.to_i128() == Some(v));
    if let Some(i) = x.to_u8() { assert!(u8::try_from(v) == Ok(i)); }
    if let Some(i) = x.to_u16() { assert!(u16::try_from(v) == Ok(i)); }
    if let Some(i) = x.to_u32() { assert!(u32::try_from(v) == Ok(i)); }
    if let Some(i) = x.to_u64() { assert!(u64::try_from(v) == Ok(i)); }
    if let Some(i) = x.to_u128() { assert!(u128::try_from(v) == Ok(i)); }
    check_not_other(x, true);
}
fn check_not_other(x: &(impl Value + ?Sized), int: bool) {
    assert!(x.to_bool().is_none());
    assert!(x.to_text().is_none());
    assert!(x.to_binary().is_none());
    if int {
        assert!(x.to_f32().is_none());
        assert!(x.to_f64().is_none());
    }
}
pub fn check_no_int(x: &(impl Value + ?Sized)) {
    assert!(x.to_i8().is_none() && x.to_i16().is_none() && x.to_i32().is_none() && x.to_i64().is_none() && x.to_i128().is_none());
    assert!(x.to_u8().is_none() && x.to_u16().is_none() && x.to_u32().is_none() && x.to_u64().is_none() && x.to_u128().is_none());
}
pub fn same_f64(a: Option<f64>, b: f64) -> bool {
    match a { Some(a) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()), None => false }
}
pub fn same_f32(a: Option<f32>, b: f32) -> bool {
    match a { Some(a) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()), None => false }
}

macro_rules! casts {
    ($g:ident, $check:ident, $draw:ident, $wide:ty) => {{
        let v = $g.$draw();
        $check(&v, v as $wide);
        $check(&Opaque(v), v as $wide);
        $check(&OpaqueComputed(v), v as $wide);
        $check(&Some(v), v as $wide);
        $check(&&v, v as $wide);
        $check(&sval_ref::Ref::new(v), v as $wide);
        let d: &dyn sval_dynamic::Value = &v;
        $check(&d, v as $wide);
        check_tag(&v, Some(&T_NUMBER));
        check_tag(&Opaque(v), Some(&T_NUMBER));
        check_tag(&Some(v), Some(&T_SOME));
    }};
}
fn check_tag(v: &impl Value, t: Tg) {
    let got = v.tag();
    assert!(same_tag(got.as_ref(), t));
    let got = (&v).tag();
    assert!(same_tag(got.as_ref(), t));
    let got = OpaqueComputed(v).tag();
    assert!(same_tag(got.as_ref(), t));
}

harnesses! {
    // ------------------------------------------------------------ C08: defaults
    ["C08", complete, unwind 20, random 400, exhaustive true, "all arguments; label text from {empty, one byte}"]
    fn degrade_scalars(g) { degrade!(g, [0, 1, 2, 3, 4, 7, 8, 9, 10, 12, 13]) }
    ["C08", none, unwind 20, random 2000, exhaustive true, "128 bit integers and u64: sampled here, proved by the Verus obligations"]
    fn degrade_wide(g) { degrade!(g, [5, 6, 11]) }
    ["C08", complete, unwind 20, random 400, exhaustive true, "all arguments; fragment text fixed (passed by reference)"]
    fn degrade_text_seq_map(g) { degrade!(g, 14..32) }
    ["C08", complete, unwind 20, random 400, exhaustive true, "all arguments; label text from {empty, one byte}"]
    fn degrade_tags(g) { degrade!(g, 32..38) }
    ["C08", complete, unwind 20, random 400, exhaustive true, "all arguments; label text from {empty, one byte}"]
    fn degrade_records(g) { degrade!(g, 38..42) }
    ["C08", complete, unwind 20, random 400, exhaustive true, "all arguments; label text from {empty, one byte}"]
    fn degrade_tuples(g) { degrade!(g, 42..46) }
    ["C08", complete, unwind 20, random 400, exhaustive true, "all arguments; label text from {empty, one byte}"]
    fn degrade_record_tuples(g) { degrade!(g, 46..50) }
    ["C08", complete, unwind 20, random 400, exhaustive true, "all arguments; label text from {empty, one byte}"]
    fn level_scalars(g) { one_level!(g, [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 13]) }
    ["C08", none, unwind 20, random 2000, exhaustive true, "128 bit integers: sampled here, proved by the Verus obligations"]
    fn level_wide(g) { one_level!(g, [6, 11]) }
    ["C08", complete, unwind 20, random 400, exhaustive true, "all arguments; label text from {empty, one byte}"]
    fn level_text_seq_map(g) { one_level!(g, 14..32) }
    ["C08", complete, unwind 20, random 400, exhaustive true, "all arguments; label text from {empty, one byte}"]
    fn level_tags(g) { one_level!(g, 32..38) }
    ["C08", complete, unwind 20, random 400, exhaustive true, "all arguments; label text from {empty, one byte}"]
    fn level_records(g) { one_level!(g, 38..42) }
    ["C08", complete, unwind 20, random 400, exhaustive true, "all arguments; label text from {empty, one byte}"]
    fn level_tuples(g) { one_level!(g, 42..50) }

    // ------------------------------------------------------------ C09: conversions
    ["C09", complete, unwind 20, random 300, exhaustive true, "every u8"]
    fn cast_u8(g) { casts!(g, check_unsigned, u8, u128) }
    ["C09", complete, unwind 20, random 300, exhaustive true, "every u16"]
    fn cast_u16(g) { casts!(g, check_unsigned, u16, u128) }
    ["C09", complete, unwind 20, random 300, exhaustive true, "every u32"]
    fn cast_u32(g) { casts!(g, check_unsigned, u32, u128) }
    ["C09", complete, unwind 20, random 300, exhaustive true, "every u64"]
    fn cast_u64(g) { casts!(g, check_unsigned, u64, u128) }
    ["C09", none, unwind 20, random 300, exhaustive true, "every u128"]
    fn cast_u128(g) { casts!(g, check_unsigned, u128, u128) }
    ["C09", complete, unwind 20, random 300, exhaustive true, "every i8"]
    fn cast_i8(g) { casts!(g, check_signed, i8, i128) }
    ["C09", complete, unwind 20, random 300, exhaustive true, "every i16"]
    fn cast_i16(g) { casts!(g, check_signed, i16, i128) }
    ["C09", complete, unwind 20, random 300, exhaustive true, "every i32"]
    fn cast_i32(g) { casts!(g, check_signed, i32, i128) }
    ["C09", complete, unwind 20, random 300, exhaustive true, "every i64"]
    fn cast_i64(g) { casts!(g, check_signed, i64, i128) }
    ["C09", none, unwind 20, random 300, exhaustive true, "every i128"]
    fn cast_i128(g) { casts!(g, check_signed, i128, i128) }
    ["C09", complete, unwind 20, random 300, exhaustive true, "every f64"]
    fn cast_f64(g) {
        let v = g.f64();
        macro_rules! c { ($x:expr) => {{
            let x = $x;
            assert!(same_f64(x.to_f64(), v));
            // narrowing may decline but never round
            if let Some(n) = x.to_f32() { assert!(same_f64(Some(n as f64), v)); }
            check_no_int(&x);
            check_not_other(&x, false);
        }} }
        c!(v);
        c!(Opaque(v));
        c!(OpaqueComputed(v));
        c!(Some(v));
        c!(&v);
        c!(sval_ref::Ref::new(v));
        check_tag(&v, Some(&T_NUMBER));
    }
    ["C09", complete, unwind 20, random 300, exhaustive true, "every f32"]
    fn cast_f32(g) {
        let v = g.f32();
        macro_rules! c { ($x:expr) => {{
            let x = $x;
            assert!(same_f32(x.to_f32(), v));
            assert!(same_f64(x.to_f64(), v as f64));
            check_no_int(&x);
            check_not_other(&x, false);
        }} }
        c!(v);
        c!(Opaque(v));
        c!(OpaqueComputed(v));
        c!(Some(v));
        c!(&v);
        c!(sval_ref::Ref::new(v));
        check_tag(&v, Some(&T_NUMBER));
    }
    ["C09", complete, unwind 20, random 100, exhaustive true, "every bool"]
    fn cast_bool(g) {
        let v = g.bool();
        macro_rules! c { ($x:expr) => {{
            let x = $x;
            assert!(x.to_bool() == Some(v));
            check_no_int(&x);
            assert!(x.to_f32().is_none() && x.to_f64().is_none());
            assert!(x.to_text().is_none() && x.to_binary().is_none());
        }} }
        c!(v);
        c!(Opaque(v));
        c!(OpaqueComputed(v));
        c!(Some(v));
        c!(&v);
        c!(sval_ref::Ref::new(v));
        check_tag(&v, None);
    }

    // ------------------------------------------------------------ C11: adapters
    ["C11", complete, unwind 20, random 400, exhaustive true, "all arguments"]
    fn fwd_mut_scalars(g) { forward!(g, 0..14, |e, x| { let mut s = &mut x; e.emit(&mut s) }) }
    ["C11", complete, unwind 20, random 400, exhaustive true, "all arguments"]
    fn fwd_mut_text_seq_map(g) { forward!(g, 14..32, |e, x| { let mut s = &mut x; e.emit(&mut s) }) }
    ["C11", complete, unwind 20, random 400, exhaustive true, "all arguments; label text from {empty, one byte}"]
    fn fwd_mut_tags(g) { forward!(g, 32..38, |e, x| { let mut s = &mut x; e.emit(&mut s) }) }
    ["C11", complete, unwind 20, random 400, exhaustive true, "all arguments; label text from {empty, one byte}"]
    fn fwd_mut_records(g) { forward!(g, 38..42, |e, x| { let mut s = &mut x; e.emit(&mut s) }) }
    ["C11", complete, unwind 20, random 400, exhaustive true, "all arguments; label text from {empty, one byte}"]
    fn fwd_mut_tuples(g) { forward!(g, 42..50, |e, x| { let mut s = &mut x; e.emit(&mut s) }) }
    ["C11", complete, unwind 20, random 400, exhaustive true, "all arguments"]
    fn fwd_dyn_scalars(g) { forward!(g, 0..14, |e, x| { let s: &mut dyn sval_dynamic::Stream = &mut x; e.emit(s) }) }
    ["C11", complete, unwind 20, random 400, exhaustive true, "all arguments"]
    fn fwd_dyn_text_seq_map(g) { forward!(g, 14..32, |e, x| { let s: &mut dyn sval_dynamic::Stream = &mut x; e.emit(s) }) }
    ["C11", complete, unwind 20, random 400, exhaustive true, "all arguments; label text from {empty, one byte}"]
    fn fwd_dyn_tags(g) { forward!(g, 32..38, |e, x| { let s: &mut dyn sval_dynamic::Stream = &mut x; e.emit(s) }) }
    ["C11", complete, unwind 20, random 400, exhaustive true, "all arguments; label text from {empty, one byte}"]
    fn fwd_dyn_records(g) { forward!(g, 38..42, |e, x| { let s: &mut dyn sval_dynamic::Stream = &mut x; e.emit(s) }) }
    ["C11", complete, unwind 20, random 400, exhaustive true, "all arguments; label text from {empty, one byte}"]
    fn fwd_dyn_tuples(g) { forward!(g, 42..50, |e, x| { let s: &mut dyn sval_dynamic::Stream = &mut x; e.emit(s) }) }
}
