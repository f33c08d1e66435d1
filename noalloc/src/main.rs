//! Bounded stand-in for the build without an allocator: every sequence of calls up to a length.
use std::panic::{catch_unwind, AssertUnwindSafe};
use sval::{Label, Stream, Tag, Value as _};
use sval_buffer::{BinaryBuf, TextBuf, Value, ValueBuf};
use sval_ref::ValueRef as _;

const T: Tag = Tag::new("a tag");
static NUMBER: [&str; 3] = ["", "ab", "\u{e9}"];
static BYTES: [&[u8]; 3] = [b"", b"ab", b"c"];

// What a stream is given, text and binary joined.
#[derive(Default)]
struct Rec { evs: Vec<String>, text: Option<String>, binary: Option<Vec<u8>> }
fn lb(l: Option<&Label>) -> String { l.map(|l| format!("{:?}/{:?}", l.as_str(), l.tag())).unwrap_or_default() }
fn ix(i: Option<&sval::Index>) -> String { i.map(|i| format!("{:?}/{:?}", i.to_isize(), i.tag())).unwrap_or_default() }
macro_rules! plain { ($($f:ident: $t:ty),*) => { $(fn $f(&mut self, v: $t) -> sval::Result { self.evs.push(format!("{} {}", stringify!($f), v)); Ok(()) })* } }
macro_rules! bare { ($($f:ident),*) => { $(fn $f(&mut self) -> sval::Result { self.evs.push(stringify!($f).into()); Ok(()) })* } }
macro_rules! three { ($($f:ident),*) => { $(fn $f(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&sval::Index>) -> sval::Result { self.evs.push(format!("{} {:?} {} {}", stringify!($f), t, lb(l), ix(i))); Ok(()) })* } }
impl<'s> Stream<'s> for Rec {
    bare!(null, map_key_begin, map_key_end, map_value_begin, map_value_end, map_end, seq_value_begin, seq_value_end, seq_end);
    plain!(bool: bool, i8: i8, i64: i64, u8: u8, u64: u64, i128: i128, u128: u128, f64: f64, f32: f32);
    three!(tagged_begin, tagged_end, tag, enum_begin, enum_end);
    fn map_begin(&mut self, n: Option<usize>) -> sval::Result { self.evs.push(format!("map_begin {n:?}")); Ok(()) }
    fn seq_begin(&mut self, n: Option<usize>) -> sval::Result { self.evs.push(format!("seq_begin {n:?}")); Ok(()) }
    fn text_begin(&mut self, _: Option<usize>) -> sval::Result { self.text = Some(String::new()); Ok(()) }
    fn text_fragment_computed(&mut self, f: &str) -> sval::Result { self.text.as_mut().expect("a fragment outside text").push_str(f); Ok(()) }
    fn text_end(&mut self) -> sval::Result { let t = self.text.take().unwrap(); self.evs.push(format!("text {t:?}")); Ok(()) }
    fn binary_begin(&mut self, _: Option<usize>) -> sval::Result { self.binary = Some(Vec::new()); Ok(()) }
    fn binary_fragment_computed(&mut self, f: &[u8]) -> sval::Result { self.binary.as_mut().expect("a fragment outside binary").extend_from_slice(f); Ok(()) }
    fn binary_end(&mut self) -> sval::Result { let t = self.binary.take().unwrap(); self.evs.push(format!("binary {t:?}")); Ok(()) }
}

// ---- calls -----------------------------------------------------------------
const CALLS: usize = 24;
fn call<'s, S: Stream<'s>>(c: usize, s: &mut S) -> sval::Result {
    let short = String::from("short");
    match c {
        0 => s.null(),
        1 => s.i64(-3),
        2 => s.bool(true),
        3 => s.text_begin(None),
        4 => s.text_fragment("ab"),
        5 => s.text_fragment_computed("c"),
        6 => s.text_end(),
        7 => s.binary_begin(None),
        8 => s.binary_fragment(b"xy"),
        9 => s.binary_fragment_computed(b"z"),
        10 => s.binary_end(),
        11 => s.map_begin(Some(1)),
        12 => s.map_key_begin(),
        13 => s.map_key_end(),
        14 => s.map_end(),
        15 => s.seq_begin(None),
        16 => s.seq_value_begin(),
        17 => s.seq_value_end(),
        18 => s.seq_end(),
        19 => s.tagged_begin(Some(&T), Some(&Label::new("l").with_tag(&T)), Some(&sval::Index::new(4).with_tag(&T))),
        20 => s.tagged_end(Some(&T), Some(&Label::new("l").with_tag(&T)), Some(&sval::Index::new(4).with_tag(&T))),
        21 => s.tag(None, Some(&Label::new_computed(&short)), None),
        22 => s.tag(Some(&T), Some(&Label::new("l").with_tag(&T)), Some(&sval::Index::new(4).with_tag(&T))),
        _ => s.u128(u128::MAX),
    }
}
fn delta(c: usize) -> i32 { match c { 11 | 12 | 15 | 16 | 19 => 1, 13 | 14 | 17 | 18 | 20 => -1, _ => 0 } }

// ---- the harnesses ---------------------------------------------------------
fn c06_calls(d: &[usize]) {
    let mut b = ValueBuf::new();
    let (mut depth, mut any, mut open_text) = (0i32, false, false);
    for &c in d {
        let r = call(c, &mut b);
        if r.is_ok() {
            assert!(delta(c) >= 0 || depth > 0, "an end of nothing was accepted");
            depth += delta(c);
            any = true;
        } else if delta(c) < 0 {
            assert!(depth == 0, "a container could be begun, but not ended");
        }
        match c { 3 | 7 => open_text = true, 6 | 10 => open_text = false, _ => {} }
        if b.is_complete() {
            assert!(depth == 0 && any && !open_text, "an incomplete value is reported as complete");
        }
        let mut r = Rec::default();
        let _ = catch_unwind(AssertUnwindSafe(|| b.stream_ref(&mut r))).expect("an incomplete buffer can't be streamed");
        let _ = b.to_value();
    }
    b.clear();
    assert!(!b.is_complete());
    call(1, &mut b).expect("a cleared buffer has room for a value");
    assert!(b.is_complete());
}
struct Calls<'a>(&'a [usize]);
impl<'a> sval::Value for Calls<'a> {
    fn stream<'s, S: Stream<'s> + ?Sized>(&'s self, mut s: &mut S) -> sval::Result { for c in self.0 { call(*c, &mut s)?; } Ok(()) }
}
// the values these calls can make
const VALUES: [&[usize]; 19] = [
    &[0], &[1], &[2], &[23], &[3, 6], &[3, 4, 6], &[3, 5, 6], &[3, 4, 4, 6], &[3, 4, 5, 6], &[7, 10], &[7, 8, 10], &[7, 9, 10], &[7, 8, 9, 10],
    &[11, 14], &[15, 18], &[22], &[21], &[19, 1, 20], &[15, 16, 0, 17, 18],
];
fn c05_values(d: &[usize]) {
    for &i in d {
        let v: &'static Calls = Box::leak(Box::new(Calls(VALUES[i % VALUES.len()])));
        let mut want = Rec::default();
        v.stream(&mut want).unwrap();
        match ValueBuf::collect(v) {
            Err(_) => assert!(![0, 1, 2, 3, 4, 5, 9, 10, 13, 14, 15].contains(&i), "a value of one part wasn't buffered"),
            Ok(b) => {
                assert!(b.is_complete(), "a buffered value isn't complete");
                for round in 0..4 {
                    let mut got = Rec::default();
                    match round {
                        0 => b.stream_ref(&mut got).unwrap(),
                        1 => b.stream(&mut got).unwrap(),
                        2 => b.to_value().stream_ref(&mut got).unwrap(),
                        _ => Value::collect(&b).expect("what was buffered can be buffered again").clone().stream(&mut got).unwrap(),
                    }
                    assert_eq!(want.evs, got.evs, "buffering changed the value");
                }
                if let Ok(o) = b.into_owned() {
                    let mut got = Rec::default();
                    o.stream(&mut got).unwrap();
                    assert_eq!(want.evs, got.evs, "making a buffer owned changed the value");
                }
            }
        }
    }
}
fn c06_errors(d: &[usize]) {
    struct Fails<'a>(&'a [usize]);
    impl<'a> sval::Value for Fails<'a> {
        fn stream<'s, S: Stream<'s> + ?Sized>(&'s self, mut s: &mut S) -> sval::Result { for c in self.0 { call(*c, &mut s)?; } sval::error() }
    }
    let cs: Vec<usize> = d.to_vec();
    assert!(ValueBuf::collect(&Fails(&cs)).is_err() && Value::collect(&Fails(&cs)).is_err(), "a failing value was buffered");
    assert!(ValueBuf::collect_owned(Fails(&cs)).is_err() && Value::collect_owned(Fails(&cs)).is_err(), "a failing value was buffered");
    assert!(TextBuf::collect(&Fails(&cs)).is_err() && BinaryBuf::collect(&Fails(&cs)).is_err(), "a failing value was buffered");
}
fn c07_text(d: &[usize]) {
    let mut b = TextBuf::new();
    let mut want = String::new();
    for &c in d {
        let (add, r) = match c {
            0..=2 => (NUMBER[c], b.push_fragment(NUMBER[c])),
            3..=5 => { let s = String::from(NUMBER[c - 3]); (NUMBER[c - 3], b.push_fragment_computed(&s)) }
            6 => ("7", b.push_display(7)),
            _ => { b.clear(); want.clear(); ("", Ok(())) }
        };
        if r.is_ok() { want.push_str(add); }
        assert_eq!(want, b.as_str(), "the buffer isn't what was pushed");
        assert!(c > 2 || r.is_ok() || want.len() > 0, "an empty buffer didn't take a borrowed fragment");
        if let Some(x) = b.as_borrowed_str() { assert_eq!(want, x); }
        let mut rec = Rec::default();
        b.clone().stream_ref(&mut rec).unwrap();
        assert_eq!(vec![format!("text {want:?}")], rec.evs);
    }
}
fn c07_binary(d: &[usize]) {
    let mut b = BinaryBuf::new();
    let mut want: Vec<u8> = Vec::new();
    for &c in d {
        let (add, r): (&[u8], _) = match c {
            0..=2 => (BYTES[c], b.push_fragment(BYTES[c])),
            3..=5 => { let s = BYTES[c - 3].to_vec(); (BYTES[c - 3], b.push_fragment_computed(&s)) }
            _ => { b.clear(); want.clear(); (b"", Ok(())) }
        };
        if r.is_ok() { want.extend_from_slice(add); }
        assert_eq!(want, b.as_slice(), "the buffer isn't what was pushed");
        assert!(c > 2 || r.is_ok() || want.len() > 0, "an empty buffer didn't take a borrowed fragment");
        if let Some(x) = b.as_borrowed_slice() { assert_eq!(want, x); }
        let mut rec = Rec::default();
        b.clone().stream_ref(&mut rec).unwrap();
        assert_eq!(vec![format!("binary {want:?}")], rec.evs);
    }
}
// `collect` gives the whole text or an error
fn c07_collect(d: &[usize]) {
    let v = Calls(VALUES[d[0]]);
    let mut want = Rec::default();
    v.stream(&mut want).unwrap();
    // text and binary on their own (tags have a text and sequences of bytes are binary, too)
    let (text, binary) = (TextBuf::collect(&v), BinaryBuf::collect(&v));
    if want.evs[0].starts_with("text") {
        if let Ok(t) = &text { assert_eq!(want.evs, vec![format!("text {:?}", t.as_str())]); }
        assert!(binary.is_err(), "text was taken for binary");
    }
    if want.evs[0].starts_with("binary") {
        if let Ok(t) = &binary { assert_eq!(want.evs, vec![format!("binary {:?}", t.as_slice())]); }
        assert!(text.is_err(), "binary was taken for text");
    }
    if d[0] == 4 || d[0] == 5 { assert!(TextBuf::collect(&v).is_ok()); }
}
fn c10_label(d: &[usize]) {
    let text = NUMBER[d[0] % 3];
    let s = String::from(text);
    let mut l = if d[0] < 3 { Label::new(text) } else { Label::new_computed(&s) };
    if d[1] == 1 { l = l.with_tag(&T); }
    let same = |a: &Label| { assert_eq!((l.as_str(), l.tag()), (a.as_str(), a.tag())); assert!(*a == l); };
    same(&l.clone());
    assert_eq!(l.as_static_str(), l.clone().as_static_str());
    assert_eq!(d[0] < 3, l.as_static_str().is_some());
    match l.try_to_owned() {
        Ok(o) => { same(&o); same(&o.clone()) }
        Err(_) => assert!(d[0] >= 3, "a static label can't be made owned"),
    }
    let i = sval::Index::new(d[0]).with_tag(&T);
    assert!(i.clone() == i && i.clone().tag() == Some(&T) && i.to_usize() == Some(d[0]));
}
// a recursive stream sees labels with their hints
fn c18_labels(d: &[usize]) {
    use sval_nested as n;
    struct L<'a>(&'a mut Vec<String>);
    struct R<'a>(&'a mut Vec<String>);
    impl<'s, 'a> n::Stream<'s> for L<'a> {
        type Ok = ();
        type Map = n::Unsupported<()>; type Seq = n::Unsupported<()>; type Tuple = n::Unsupported<()>; type Record = R<'a>; type Enum = n::Unsupported<()>;
        fn null(self) -> n::Result<()> { Ok(()) }
        fn bool(self, _: bool) -> n::Result<()> { Ok(()) }
        fn i64(self, _: i64) -> n::Result<()> { Ok(()) }
        fn f64(self, _: f64) -> n::Result<()> { Ok(()) }
        fn text_computed(self, _: &str) -> n::Result<()> { Ok(()) }
        fn map_begin(self, _: Option<usize>) -> n::Result<Self::Map> { Err(n::Error::invalid_value("")) }
        fn seq_begin(self, _: Option<usize>) -> n::Result<Self::Seq> { Err(n::Error::invalid_value("")) }
        fn tuple_begin(self, _: Option<Tag>, _: Option<Label>, _: Option<sval::Index>, _: Option<usize>) -> n::Result<Self::Tuple> { Err(n::Error::invalid_value("")) }
        fn record_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<sval::Index>, _: Option<usize>) -> n::Result<R<'a>> {
            self.0.push(format!("record {t:?} {} {}", lb(l.as_ref()), ix(i.as_ref()))); Ok(R(self.0))
        }
        fn enum_begin(self, _: Option<Tag>, _: Option<Label>, _: Option<sval::Index>) -> n::Result<Self::Enum> { Err(n::Error::invalid_value("")) }
        fn tag(self, t: Option<Tag>, l: Option<Label>, i: Option<sval::Index>) -> n::Result<()> { self.0.push(format!("tag {t:?} {} {}", lb(l.as_ref()), ix(i.as_ref()))); Ok(()) }
        fn tagged<V: sval_ref::ValueRef<'s>>(self, t: Option<Tag>, l: Option<Label>, i: Option<sval::Index>, _: V) -> n::Result<()> { self.0.push(format!("tagged {t:?} {} {}", lb(l.as_ref()), ix(i.as_ref()))); Ok(()) }
    }
    impl<'s, 'a> n::StreamRecord<'s> for R<'a> {
        type Ok = ();
        fn value_computed<V: sval::Value>(&mut self, t: Option<Tag>, l: Label, _: V) -> n::Result { self.0.push(format!("value {t:?} {}", lb(Some(&l)))); Ok(()) }
        fn end(self) -> n::Result<()> { Ok(()) }
    }
    struct V(usize, usize);
    impl sval::Value for V {
        fn stream<'s, S: Stream<'s> + ?Sized>(&'s self, s: &mut S) -> sval::Result {
            let short = String::from("short");
            let mut l = if self.0 == 0 { Label::new("static") } else { Label::new_computed(&short) };
            if self.1 == 1 { l = l.with_tag(&T); }
            s.record_begin(None, Some(&l), None, Some(1))?;
            s.record_value_begin(Some(&T), &l)?;
            s.i64(1)?;
            s.record_value_end(Some(&T), &l)?;
            s.record_end(None, Some(&l), None)
        }
    }
    let mut got = Vec::new();
    let v = V(d[0], d[1]);
    let r = n::stream_ref(L(&mut got), &v);
    let t = if d[1] == 1 { Some(&T) } else { None };
    match r {
        Ok(()) => {
            let l = format!("{:?}/{:?}", if d[0] == 0 { "static" } else { "short" }, t);
            assert_eq!(got, vec![format!("record None {l} "), format!("value {:?} {l}", Some(&T))], "a label changed on its way");
        }
        Err(_) => assert!(d[0] == 1, "a static label couldn't be kept"),
    }
}

// name, property, alphabet of each place (the last repeats), longest
type H = (&'static str, &'static str, &'static [usize], usize, usize, fn(&[usize]));
const ALL: [H; 8] = [
    ("noalloc_calls", "C06", &[CALLS], 1, 4, c06_calls),
    ("noalloc_failing_values", "C06", &[CALLS], 0, 3, c06_errors),
    ("noalloc_values", "C05", &[VALUES.len()], 1, 2, c05_values),
    ("noalloc_text", "C07", &[8], 1, 5, c07_text),
    ("noalloc_binary", "C07", &[7], 1, 5, c07_binary),
    ("noalloc_collect", "C07", &[VALUES.len()], 1, 1, c07_collect),
    ("noalloc_label", "C10", &[6, 2], 2, 2, c10_label),
    ("noalloc_nested_labels", "C18", &[2, 2], 2, 2, c18_labels),
];

thread_local!(static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));
fn once(h: &H, d: &[usize]) -> Option<String> {
    catch_unwind(AssertUnwindSafe(|| (h.5)(d))).err().map(|_| LAST.with(|l| l.borrow().clone()))
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o + "\""
}
fn main() {
    std::panic::set_hook(Box::new(|i| LAST.with(|l| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        *l.borrow_mut() = format!("{m} at {}", i.location().map(|l| l.to_string()).unwrap_or_default());
    })));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    if a.get(1).map(|s| &**s) == Some("run") {
        let h = ALL.iter().find(|h| Some(h.0) == get("--harness").as_deref()).expect("no such harness");
        let d: Vec<usize> = get("--draws").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        match once(h, &d) { Some(m) => { println!("FAILED: {m}"); std::process::exit(1) } None => println!("held") }
        return;
    }
    let prop = get("--prop").expect("--prop");
    let mut bad = false;
    for h in ALL.iter().filter(|h| h.1 == prop) {
        let (mut evals, mut fail) = (0u64, None);
        'all: for len in h.3..=h.4 {
            let base = |i: usize| h.2[i.min(h.2.len() - 1)];
            let mut d = vec![0usize; len];
            loop {
                evals += 1;
                if let Some(m) = once(h, &d) { fail = Some((d.clone(), m)); break 'all; }
                let mut i = len;
                loop {
                    if i == 0 { break; }
                    i -= 1;
                    d[i] += 1;
                    if d[i] < base(i) { i = usize::MAX; break; }
                    d[i] = 0;
                }
                if i != usize::MAX { break; }
            }
        }
        bad |= fail.is_some();
        println!("{{\"name\":{},\"evals\":{evals},\"distinct\":{evals},\"exhausted\":true,\"sample\":\"all call sequences of length {} to {}\",\"fail\":{}}}", js(h.0), h.3, h.4,
            fail.map(|(d, m)| format!("{{\"draws\":{d:?},\"message\":{}}}", js(&m))).unwrap_or("null".into()));
    }
    std::process::exit(bad as i32);
}
