//! The observable alphabet: one `Ev` per `sval::Stream` method call, scripts of them that act as values,
//! and streams that check or record them.

use sval::{Index, Label, Stream, Tag, Value};

pub type Tg = Option<&'static Tag>;

macro_rules! tagtable {
    ($($n:ident = $e:expr;)*) => { $( pub static $n: Tag = $e; )* };
}
tagtable! {
    T_SOME = sval::tags::RUST_OPTION_SOME;
    T_NONE = sval::tags::RUST_OPTION_NONE;
    T_UNIT = sval::tags::RUST_UNIT;
    T_NUMBER = sval::tags::NUMBER;
    T_CONST = sval::tags::CONSTANT_SIZE;
    T_IDENT = sval::tags::VALUE_IDENT;
    T_OFFSET = sval::tags::VALUE_OFFSET;
    T_A = Tag::new("a");
    T_B = Tag::new("b");
    T_JVALUE = sval_json::tags::JSON_VALUE;
    T_JTEXT = sval_json::tags::JSON_TEXT;
    T_JNUMBER = sval_json::tags::JSON_NUMBER;
}

#[derive(Clone, Copy, Debug)]
pub struct Lab<'a> {
    pub text: &'a str,
    /// The static text; `None` for computed labels.
    pub stat: Option<&'static str>,
    pub tag: Tg,
}

impl<'a> Lab<'a> {
    pub const fn st(text: &'static str) -> Lab<'static> {
        Lab { text, stat: Some(text), tag: None }
    }
    pub const fn ident(text: &'static str) -> Lab<'static> {
        Lab { text, stat: Some(text), tag: Some(&T_IDENT) }
    }
    pub const fn comp(text: &'a str) -> Lab<'a> {
        Lab { text, stat: None, tag: None }
    }
    pub fn to(&self) -> Label<'a> {
        let l = match self.stat {
            Some(s) => Label::new(s),
            None => Label::new_computed(self.text),
        };
        match self.tag {
            Some(t) => l.with_tag(t),
            None => l,
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Ix {
    pub v: isize,
    pub tag: Tg,
}

impl Ix {
    pub const fn n(v: isize) -> Ix {
        Ix { v, tag: None }
    }
    pub const fn off(v: isize) -> Ix {
        Ix { v, tag: Some(&T_OFFSET) }
    }
    pub fn to(&self) -> Index {
        let i = Index::new_isize(self.v);
        match self.tag {
            Some(t) => i.with_tag(t),
            None => i,
        }
    }
}

pub type OLab<'a> = Option<Lab<'a>>;
pub type OIx = Option<Ix>;
pub type Hint = Option<usize>;

#[derive(Clone, Copy, Debug)]
pub enum Ev<'a> {
    Null,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    F32(f32),
    F64(f64),
    TextBegin(Hint),
    Text(&'a str),
    TextComputed(&'a str),
    TextEnd,
    BinaryBegin(Hint),
    Binary(&'a [u8]),
    BinaryComputed(&'a [u8]),
    BinaryEnd,
    MapBegin(Hint),
    MapKeyBegin,
    MapKeyEnd,
    MapValueBegin,
    MapValueEnd,
    MapEnd,
    SeqBegin(Hint),
    SeqValueBegin,
    SeqValueEnd,
    SeqEnd,
    EnumBegin(Tg, OLab<'a>, OIx),
    EnumEnd(Tg, OLab<'a>, OIx),
    TaggedBegin(Tg, OLab<'a>, OIx),
    TaggedEnd(Tg, OLab<'a>, OIx),
    Tag(Tg, OLab<'a>, OIx),
    TagHint(&'static Tag),
    RecordBegin(Tg, OLab<'a>, OIx, Hint),
    RecordValueBegin(Tg, Lab<'a>),
    RecordValueEnd(Tg, Lab<'a>),
    RecordEnd(Tg, OLab<'a>, OIx),
    TupleBegin(Tg, OLab<'a>, OIx, Hint),
    TupleValueBegin(Tg, Ix),
    TupleValueEnd(Tg, Ix),
    TupleEnd(Tg, OLab<'a>, OIx),
    RecordTupleBegin(Tg, OLab<'a>, OIx, Hint),
    RecordTupleValueBegin(Tg, Lab<'a>, Ix),
    RecordTupleValueEnd(Tg, Lab<'a>, Ix),
    RecordTupleEnd(Tg, OLab<'a>, OIx),
    /// Not an event: stream a nested script through `Stream::value`.
    Sub(&'a Script<'a>),
    /// Not an event: stream a nested script through `Stream::value_computed`.
    SubComputed(&'a Script<'a>),
    /// Not an event: the value itself fails here.
    Fail,
}

pub const N_EVENTS: usize = 50;

/// A value that replays a list of events.
#[derive(Clone, Copy, Debug)]
pub struct Script<'a>(pub &'a [Ev<'a>]);

impl<'a> Value for Script<'a> {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, stream: &mut S) -> sval::Result {
        for e in self.0 {
            e.emit(stream)?;
        }
        Ok(())
    }
}

pub fn with3<R>(
    l: &OLab<'_>,
    i: &OIx,
    f: impl FnOnce(Option<&Label>, Option<&Index>) -> R,
) -> R {
    let l = l.as_ref().map(|l| l.to());
    let i = i.as_ref().map(|i| i.to());
    f(l.as_ref(), i.as_ref())
}

impl<'a> Ev<'a> {
    pub fn emit<'s, S: Stream<'s> + ?Sized>(&'s self, s: &mut S) -> sval::Result {
        match *self {
            Ev::Null => s.null(),
            Ev::Bool(v) => s.bool(v),
            Ev::U8(v) => s.u8(v),
            Ev::U16(v) => s.u16(v),
            Ev::U32(v) => s.u32(v),
            Ev::U64(v) => s.u64(v),
            Ev::U128(v) => s.u128(v),
            Ev::I8(v) => s.i8(v),
            Ev::I16(v) => s.i16(v),
            Ev::I32(v) => s.i32(v),
            Ev::I64(v) => s.i64(v),
            Ev::I128(v) => s.i128(v),
            Ev::F32(v) => s.f32(v),
            Ev::F64(v) => s.f64(v),
            Ev::TextBegin(h) => s.text_begin(h),
            Ev::Text(t) => s.text_fragment(t),
            Ev::TextComputed(t) => s.text_fragment_computed(t),
            Ev::TextEnd => s.text_end(),
            Ev::BinaryBegin(h) => s.binary_begin(h),
            Ev::Binary(b) => s.binary_fragment(b),
            Ev::BinaryComputed(b) => s.binary_fragment_computed(b),
            Ev::BinaryEnd => s.binary_end(),
            Ev::MapBegin(h) => s.map_begin(h),
            Ev::MapKeyBegin => s.map_key_begin(),
            Ev::MapKeyEnd => s.map_key_end(),
            Ev::MapValueBegin => s.map_value_begin(),
            Ev::MapValueEnd => s.map_value_end(),
            Ev::MapEnd => s.map_end(),
            Ev::SeqBegin(h) => s.seq_begin(h),
            Ev::SeqValueBegin => s.seq_value_begin(),
            Ev::SeqValueEnd => s.seq_value_end(),
            Ev::SeqEnd => s.seq_end(),
            Ev::EnumBegin(t, l, i) => with3(&l, &i, |l, i| s.enum_begin(t, l, i)),
            Ev::EnumEnd(t, l, i) => with3(&l, &i, |l, i| s.enum_end(t, l, i)),
            Ev::TaggedBegin(t, l, i) => with3(&l, &i, |l, i| s.tagged_begin(t, l, i)),
            Ev::TaggedEnd(t, l, i) => with3(&l, &i, |l, i| s.tagged_end(t, l, i)),
            Ev::Tag(t, l, i) => with3(&l, &i, |l, i| s.tag(t, l, i)),
            Ev::TagHint(t) => s.tag_hint(t),
            Ev::RecordBegin(t, l, i, h) => with3(&l, &i, |l, i| s.record_begin(t, l, i, h)),
            Ev::RecordValueBegin(t, l) => s.record_value_begin(t, &l.to()),
            Ev::RecordValueEnd(t, l) => s.record_value_end(t, &l.to()),
            Ev::RecordEnd(t, l, i) => with3(&l, &i, |l, i| s.record_end(t, l, i)),
            Ev::TupleBegin(t, l, i, h) => with3(&l, &i, |l, i| s.tuple_begin(t, l, i, h)),
            Ev::TupleValueBegin(t, i) => s.tuple_value_begin(t, &i.to()),
            Ev::TupleValueEnd(t, i) => s.tuple_value_end(t, &i.to()),
            Ev::TupleEnd(t, l, i) => with3(&l, &i, |l, i| s.tuple_end(t, l, i)),
            Ev::RecordTupleBegin(t, l, i, h) => with3(&l, &i, |l, i| s.record_tuple_begin(t, l, i, h)),
            Ev::RecordTupleValueBegin(t, l, i) => s.record_tuple_value_begin(t, &l.to(), &i.to()),
            Ev::RecordTupleValueEnd(t, l, i) => s.record_tuple_value_end(t, &l.to(), &i.to()),
            Ev::RecordTupleEnd(t, l, i) => with3(&l, &i, |l, i| s.record_tuple_end(t, l, i)),
            Ev::Sub(v) => s.value(v),
            Ev::SubComputed(v) => s.value_computed(v),
            Ev::Fail => Err(sval::Error::new()),
        }
    }
}

// ---------------------------------------------------------------- comparing

fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    if core::ptr::eq(a.as_ptr(), b.as_ptr()) {
        return true;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

pub fn same_str(a: &str, b: &str) -> bool {
    same_bytes(a.as_bytes(), b.as_bytes())
}

pub fn same_tag(a: Option<&Tag>, b: Option<&Tag>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => core::ptr::eq(a, b) || a == b,
        _ => false,
    }
}

/// What a harness is allowed to ignore when comparing.
#[derive(Clone, Copy)]
pub struct Lax {
    /// Compare integers numerically, whatever their width, and floats as `f64`.
    pub num: bool,
    /// Don't distinguish borrowed and computed fragments.
    pub frag: bool,
    pub label_tag: bool,
    pub index_tag: bool,
    pub label_static: bool,
}

pub const STRICT: Lax = Lax { num: false, frag: false, label_tag: false, index_tag: false, label_static: false };

pub fn same_lab(a: &Lab<'_>, b: &Lab<'_>, lax: Lax) -> bool {
    same_str(a.text, b.text)
        && (lax.label_static || a.stat.is_some() == b.stat.is_some())
        && (lax.label_tag || same_tag(a.tag, b.tag))
}
pub fn same_olab(a: &OLab<'_>, b: &OLab<'_>, lax: Lax) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same_lab(a, b, lax),
        _ => false,
    }
}
pub fn same_ix(a: &Ix, b: &Ix, lax: Lax) -> bool {
    a.v == b.v && (lax.index_tag || same_tag(a.tag, b.tag))
}
pub fn same_oix(a: &OIx, b: &OIx, lax: Lax) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same_ix(a, b, lax),
        _ => false,
    }
}

impl<'a> Ev<'a> {
    pub fn same(&self, o: &Ev<'_>, x: Lax) -> bool {
        use Ev::*;
        match (self, o) {
            (Null, Null) | (TextEnd, TextEnd) | (BinaryEnd, BinaryEnd) => true,
            (MapKeyBegin, MapKeyBegin) | (MapKeyEnd, MapKeyEnd) => true,
            (MapValueBegin, MapValueBegin) | (MapValueEnd, MapValueEnd) | (MapEnd, MapEnd) => true,
            (SeqValueBegin, SeqValueBegin) | (SeqValueEnd, SeqValueEnd) | (SeqEnd, SeqEnd) => true,
            (Bool(a), Bool(b)) => a == b,
            (U8(a), U8(b)) => a == b,
            (U16(a), U16(b)) => a == b,
            (U32(a), U32(b)) => a == b,
            (U64(a), U64(b)) => a == b,
            (U128(a), U128(b)) => a == b,
            (I8(a), I8(b)) => a == b,
            (I16(a), I16(b)) => a == b,
            (I32(a), I32(b)) => a == b,
            (I64(a), I64(b)) => a == b,
            (I128(a), I128(b)) => a == b,
            (F32(a), F32(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (F64(a), F64(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (TextBegin(a), TextBegin(b)) | (BinaryBegin(a), BinaryBegin(b)) => a == b,
            (MapBegin(a), MapBegin(b)) | (SeqBegin(a), SeqBegin(b)) => a == b,
            (Text(a), Text(b)) | (TextComputed(a), TextComputed(b)) => same_str(a, b),
            (Binary(a), Binary(b)) | (BinaryComputed(a), BinaryComputed(b)) => same_bytes(a, b),
            (EnumBegin(t, l, i), EnumBegin(t2, l2, i2))
            | (EnumEnd(t, l, i), EnumEnd(t2, l2, i2))
            | (TaggedBegin(t, l, i), TaggedBegin(t2, l2, i2))
            | (TaggedEnd(t, l, i), TaggedEnd(t2, l2, i2))
            | (Tag(t, l, i), Tag(t2, l2, i2))
            | (RecordEnd(t, l, i), RecordEnd(t2, l2, i2))
            | (TupleEnd(t, l, i), TupleEnd(t2, l2, i2))
            | (RecordTupleEnd(t, l, i), RecordTupleEnd(t2, l2, i2)) => {
                same_tag(*t, *t2) && same_olab(l, l2, x) && same_oix(i, i2, x)
            }
            (TagHint(a), TagHint(b)) => same_tag(Some(*a), Some(*b)),
            (RecordBegin(t, l, i, h), RecordBegin(t2, l2, i2, h2))
            | (TupleBegin(t, l, i, h), TupleBegin(t2, l2, i2, h2))
            | (RecordTupleBegin(t, l, i, h), RecordTupleBegin(t2, l2, i2, h2)) => {
                same_tag(*t, *t2) && same_olab(l, l2, x) && same_oix(i, i2, x) && h == h2
            }
            (RecordValueBegin(t, l), RecordValueBegin(t2, l2)) | (RecordValueEnd(t, l), RecordValueEnd(t2, l2)) => {
                same_tag(*t, *t2) && same_lab(l, l2, x)
            }
            (TupleValueBegin(t, i), TupleValueBegin(t2, i2)) | (TupleValueEnd(t, i), TupleValueEnd(t2, i2)) => {
                same_tag(*t, *t2) && same_ix(i, i2, x)
            }
            (RecordTupleValueBegin(t, l, i), RecordTupleValueBegin(t2, l2, i2))
            | (RecordTupleValueEnd(t, l, i), RecordTupleValueEnd(t2, l2, i2)) => {
                same_tag(*t, *t2) && same_lab(l, l2, x) && same_ix(i, i2, x)
            }
            (Text(a), TextComputed(b)) | (TextComputed(a), Text(b)) if x.frag => same_str(a, b),
            (Binary(a), BinaryComputed(b)) | (BinaryComputed(a), Binary(b)) if x.frag => same_bytes(a, b),
            (a, b) if x.num => match (a.int(), b.int()) {
                (Some(a), Some(b)) => a == b,
                _ => match (a.float(), b.float()) {
                    (Some(a), Some(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
                    _ => false,
                },
            },
            _ => false,
        }
    }

    /// The sign and magnitude of an integer event.
    pub fn int(&self) -> Option<(bool, u128)> {
        fn i(v: i128) -> Option<(bool, u128)> {
            Some((v < 0, v.unsigned_abs()))
        }
        match *self {
            Ev::U8(v) => Some((false, v as u128)),
            Ev::U16(v) => Some((false, v as u128)),
            Ev::U32(v) => Some((false, v as u128)),
            Ev::U64(v) => Some((false, v as u128)),
            Ev::U128(v) => Some((false, v)),
            Ev::I8(v) => i(v as i128),
            Ev::I16(v) => i(v as i128),
            Ev::I32(v) => i(v as i128),
            Ev::I64(v) => i(v as i128),
            Ev::I128(v) => i(v),
            _ => None,
        }
    }
    pub fn float(&self) -> Option<f64> {
        match *self {
            Ev::F32(v) => Some(v as f64),
            Ev::F64(v) => Some(v),
            _ => None,
        }
    }
}

/// A short list of events without allocation.
#[derive(Clone, Copy)]
pub struct List<'a> {
    pub a: [Ev<'a>; 12],
    pub n: usize,
}

impl<'a> List<'a> {
    pub fn of(evs: &[Ev<'a>]) -> List<'a> {
        let mut l = List { a: [Ev::Null; 12], n: 0 };
        for e in evs {
            l.a[l.n] = *e;
            l.n += 1;
        }
        l
    }
    pub fn get(&self) -> &[Ev<'a>] {
        &self.a[..self.n]
    }
}

// ---------------------------------------------------------------- observing

/// Anything that consumes events.
pub trait Sink {
    fn ev(&mut self, e: Ev<'_>) -> sval::Result;
}

/// Views of what a stream method was given. The `'static` on tags is only needed to store them in `Ev`;
/// nothing outlives the call.
pub fn tg(t: Option<&Tag>) -> Tg {
    // SAFETY: the reference is only compared during the call it was made for, or copied by value
    t.map(|t| unsafe { &*(t as *const Tag) })
}
pub fn lab<'a>(l: &'a Label<'_>) -> Lab<'a> {
    Lab { text: l.as_str(), stat: l.as_static_str(), tag: tg(l.tag()) }
}
pub fn ix(i: &Index) -> Ix {
    match i.to_isize() {
        Some(v) => Ix { v, tag: tg(i.tag()) },
        None => Ix { v: isize::MIN, tag: tg(i.tag()) },
    }
}

/// Implement every method of `sval::Stream` by turning it into an event.
#[macro_export]
macro_rules! stream_via_ev {
    ([$($g:tt)*] $t:ty) => {
        impl<'sval, $($g)*> sval::Stream<'sval> for $t {
            fn null(&mut self) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::Null) }
            fn bool(&mut self, v: bool) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::Bool(v)) }
            fn u8(&mut self, v: u8) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::U8(v)) }
            fn u16(&mut self, v: u16) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::U16(v)) }
            fn u32(&mut self, v: u32) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::U32(v)) }
            fn u64(&mut self, v: u64) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::U64(v)) }
            fn u128(&mut self, v: u128) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::U128(v)) }
            fn i8(&mut self, v: i8) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::I8(v)) }
            fn i16(&mut self, v: i16) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::I16(v)) }
            fn i32(&mut self, v: i32) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::I32(v)) }
            fn i64(&mut self, v: i64) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::I64(v)) }
            fn i128(&mut self, v: i128) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::I128(v)) }
            fn f32(&mut self, v: f32) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::F32(v)) }
            fn f64(&mut self, v: f64) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::F64(v)) }
            fn text_begin(&mut self, h: Option<usize>) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::TextBegin(h)) }
            fn text_fragment(&mut self, v: &'sval str) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::Text(v)) }
            fn text_fragment_computed(&mut self, v: &str) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::TextComputed(v)) }
            fn text_end(&mut self) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::TextEnd) }
            fn binary_begin(&mut self, h: Option<usize>) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::BinaryBegin(h)) }
            fn binary_fragment(&mut self, v: &'sval [u8]) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::Binary(v)) }
            fn binary_fragment_computed(&mut self, v: &[u8]) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::BinaryComputed(v)) }
            fn binary_end(&mut self) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::BinaryEnd) }
            fn map_begin(&mut self, h: Option<usize>) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::MapBegin(h)) }
            fn map_key_begin(&mut self) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::MapKeyBegin) }
            fn map_key_end(&mut self) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::MapKeyEnd) }
            fn map_value_begin(&mut self) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::MapValueBegin) }
            fn map_value_end(&mut self) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::MapValueEnd) }
            fn map_end(&mut self) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::MapEnd) }
            fn seq_begin(&mut self, h: Option<usize>) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::SeqBegin(h)) }
            fn seq_value_begin(&mut self) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::SeqValueBegin) }
            fn seq_value_end(&mut self) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::SeqValueEnd) }
            fn seq_end(&mut self) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::SeqEnd) }
            $crate::stream_tagged_via_ev!{}
        }
    };
}

#[macro_export]
macro_rules! stream_tagged_via_ev {
    () => {
        fn enum_begin(&mut self, t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::EnumBegin($crate::ev::tg(t), l.map($crate::ev::lab), i.map($crate::ev::ix))) }
        fn enum_end(&mut self, t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::EnumEnd($crate::ev::tg(t), l.map($crate::ev::lab), i.map($crate::ev::ix))) }
        fn tagged_begin(&mut self, t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::TaggedBegin($crate::ev::tg(t), l.map($crate::ev::lab), i.map($crate::ev::ix))) }
        fn tagged_end(&mut self, t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::TaggedEnd($crate::ev::tg(t), l.map($crate::ev::lab), i.map($crate::ev::ix))) }
        fn tag(&mut self, t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::Tag($crate::ev::tg(t), l.map($crate::ev::lab), i.map($crate::ev::ix))) }
        fn tag_hint(&mut self, t: &sval::Tag) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::TagHint($crate::ev::tg(Some(t)).unwrap())) }
        fn record_begin(&mut self, t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>, h: Option<usize>) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::RecordBegin($crate::ev::tg(t), l.map($crate::ev::lab), i.map($crate::ev::ix), h)) }
        fn record_value_begin(&mut self, t: Option<&sval::Tag>, l: &sval::Label) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::RecordValueBegin($crate::ev::tg(t), $crate::ev::lab(l))) }
        fn record_value_end(&mut self, t: Option<&sval::Tag>, l: &sval::Label) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::RecordValueEnd($crate::ev::tg(t), $crate::ev::lab(l))) }
        fn record_end(&mut self, t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::RecordEnd($crate::ev::tg(t), l.map($crate::ev::lab), i.map($crate::ev::ix))) }
        fn tuple_begin(&mut self, t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>, h: Option<usize>) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::TupleBegin($crate::ev::tg(t), l.map($crate::ev::lab), i.map($crate::ev::ix), h)) }
        fn tuple_value_begin(&mut self, t: Option<&sval::Tag>, i: &sval::Index) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::TupleValueBegin($crate::ev::tg(t), $crate::ev::ix(i))) }
        fn tuple_value_end(&mut self, t: Option<&sval::Tag>, i: &sval::Index) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::TupleValueEnd($crate::ev::tg(t), $crate::ev::ix(i))) }
        fn tuple_end(&mut self, t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::TupleEnd($crate::ev::tg(t), l.map($crate::ev::lab), i.map($crate::ev::ix))) }
        fn record_tuple_begin(&mut self, t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>, h: Option<usize>) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::RecordTupleBegin($crate::ev::tg(t), l.map($crate::ev::lab), i.map($crate::ev::ix), h)) }
        fn record_tuple_value_begin(&mut self, t: Option<&sval::Tag>, l: &sval::Label, i: &sval::Index) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::RecordTupleValueBegin($crate::ev::tg(t), $crate::ev::lab(l), $crate::ev::ix(i))) }
        fn record_tuple_value_end(&mut self, t: Option<&sval::Tag>, l: &sval::Label, i: &sval::Index) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::RecordTupleValueEnd($crate::ev::tg(t), $crate::ev::lab(l), $crate::ev::ix(i))) }
        fn record_tuple_end(&mut self, t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>) -> sval::Result { $crate::ev::Sink::ev(self, $crate::ev::Ev::RecordTupleEnd($crate::ev::tg(t), l.map($crate::ev::lab), i.map($crate::ev::ix))) }
    };
}

/// A stream that checks it's given exactly the expected events, optionally failing at one of them.
pub struct Expect<'e> {
    pub want: &'e [Ev<'e>],
    pub pos: usize,
    pub fail_at: Option<usize>,
    pub failed: bool,
    pub lax: Lax,
}

impl<'e> Expect<'e> {
    pub fn new(want: &'e [Ev<'e>]) -> Self {
        Expect { want, pos: 0, fail_at: None, failed: false, lax: STRICT }
    }
    pub fn failing(want: &'e [Ev<'e>], fail_at: Option<usize>) -> Self {
        Expect { want, pos: 0, fail_at, failed: false, lax: STRICT }
    }
    pub fn lax(mut self, lax: Lax) -> Self {
        self.lax = lax;
        self
    }
    /// Check the outcome of streaming: everything arrived, and errors were passed on.
    pub fn done(&self, r: sval::Result) {
        if self.failed {
            assert!(r.is_err(), "an error returned by the stream was swallowed");
        } else {
            assert!(r.is_ok(), "streaming failed although no call failed");
            assert!(self.pos == self.want.len(), "the stream ended early");
        }
    }
}

impl<'e> Sink for Expect<'e> {
    fn ev(&mut self, e: Ev<'_>) -> sval::Result {
        assert!(!self.failed, "the stream was called again after it returned an error");
        assert!(self.pos < self.want.len(), "unexpected extra event");
        #[cfg(not(kani))]
        {
            let w = &self.want[self.pos];
            assert!(w.same(&e, self.lax), "event {}: expected {:?}, got {:?}", self.pos, w, e);
        }
        #[cfg(kani)]
        assert!(self.want[self.pos].same(&e, self.lax), "unexpected event");
        if self.fail_at == Some(self.pos) {
            self.failed = true;
            return Err(sval::Error::new());
        }
        self.pos += 1;
        Ok(())
    }
}

stream_via_ev!(['e] Expect<'e>);

/// A stream that only implements the required methods, so everything else goes through the defaults.
pub struct Min<S>(pub S);

impl<'sval, S: Sink> Stream<'sval> for Min<S> {
    fn null(&mut self) -> sval::Result {
        self.0.ev(Ev::Null)
    }
    fn bool(&mut self, v: bool) -> sval::Result {
        self.0.ev(Ev::Bool(v))
    }
    fn i64(&mut self, v: i64) -> sval::Result {
        self.0.ev(Ev::I64(v))
    }
    fn f64(&mut self, v: f64) -> sval::Result {
        self.0.ev(Ev::F64(v))
    }
    fn text_begin(&mut self, h: Option<usize>) -> sval::Result {
        self.0.ev(Ev::TextBegin(h))
    }
    fn text_fragment_computed(&mut self, v: &str) -> sval::Result {
        self.0.ev(Ev::TextComputed(v))
    }
    fn text_end(&mut self) -> sval::Result {
        self.0.ev(Ev::TextEnd)
    }
    fn seq_begin(&mut self, h: Option<usize>) -> sval::Result {
        self.0.ev(Ev::SeqBegin(h))
    }
    fn seq_value_begin(&mut self) -> sval::Result {
        self.0.ev(Ev::SeqValueBegin)
    }
    fn seq_value_end(&mut self) -> sval::Result {
        self.0.ev(Ev::SeqValueEnd)
    }
    fn seq_end(&mut self) -> sval::Result {
        self.0.ev(Ev::SeqEnd)
    }
}
