//! Buffers: round trips (C05), malformed and failing streams (C06), fragment buffers (C07).
use crate::tree::*;
use crate::*;
use sval_buffer::{BinaryBuf, TextBuf, Value, ValueBuf};
use sval_ref::ValueRef;

const FRAG: Lax = Lax { num: false, frag: true, label_tag: false, index_tag: false, label_static: false };

/// What a buffer replays for a value: fragments joined, text sized exactly.
pub fn buffered(n: &Node) -> Node {
    fn exact(n: &Node) -> Node {
        let b = |n: &Box<Node>| Box::new(exact(n));
        match n {
            Node::Text(f, _) => Node::Text(f.clone(), Some(f.iter().map(|f| f.0.len()).sum())),
            Node::Binary(f, _) => Node::Binary(f.clone(), Some(f.iter().map(|f| f.0.len()).sum())),
            Node::Seq(v, h) => Node::Seq(v.iter().map(exact).collect(), *h),
            Node::Map(v, h) => Node::Map(v.iter().map(|(k, v)| (exact(k), exact(v))).collect(), *h),
            Node::Tagged(m, n) => Node::Tagged(*m, n.as_ref().map(b)),
            Node::Enum(m, n) => Node::Enum(*m, n.as_ref().map(b)),
            Node::Record(m, f, h) => Node::Record(*m, f.iter().map(|(t, l, n)| (*t, *l, exact(n))).collect(), *h),
            Node::Tuple(m, f, h) => Node::Tuple(*m, f.iter().map(|(t, l, n)| (*t, *l, exact(n))).collect(), *h),
            Node::RecordTuple(m, f, h) => Node::RecordTuple(*m, f.iter().map(|(t, l, x, n)| (*t, *l, *x, exact(n))).collect(), *h),
            n => n.clone(),
        }
    }
    exact(&normal(n))
}

pub fn rebuild_hints(v: &(impl sval::Value + ?Sized)) -> (Node, Vec<&'static sval::Tag>) {
    let mut b = Builder::new();
    let r = v.stream(&mut b);
    let h = b.hints.clone();
    (b.finish(r), h)
}
fn rebuild_ref<'a>(v: &impl ValueRef<'a>) -> (Node, Vec<&'static sval::Tag>) {
    let mut b = Builder::new();
    let r = v.stream_ref(&mut b);
    let h = b.hints.clone();
    (b.finish(r), h)
}
fn same_out(what: &str, got: (Node, Vec<&'static sval::Tag>), want: &(Node, Vec<&'static sval::Tag>)) {
    assert!(same_node(&got.0, &want.0, FRAG, true), "{}: buffered {:?}, but it replays {:?}", what, want.0, got.0);
    assert!(got.1.len() == want.1.len() && got.1.iter().zip(&want.1).all(|(a, b)| a == b), "{}: hints differ: {:?} {:?}", what, want.1, got.1);
}

/// Whether every text and binary value in a tree arrived as borrowed data.
fn borrowed(n: &Node) -> (usize, usize) {
    let mut b = 0;
    let mut o = 0;
    fn go(n: &Node, b: &mut usize, o: &mut usize) {
        match n {
            Node::Text(f, _) => f.iter().for_each(|f| if f.1 { *o += 1 } else { *b += 1 }),
            Node::Binary(f, _) => f.iter().for_each(|f| if f.1 { *o += 1 } else { *b += 1 }),
            Node::Seq(v, _) => v.iter().for_each(|n| go(n, b, o)),
            Node::Map(v, _) => v.iter().for_each(|(k, n)| {
                go(k, b, o);
                go(n, b, o)
            }),
            Node::Tagged(_, Some(n)) | Node::Enum(_, Some(n)) | Node::Hinted(_, n) | Node::Via(_, n) => go(n, b, o),
            Node::Record(_, v, _) => v.iter().for_each(|(_, _, n)| go(n, b, o)),
            Node::Tuple(_, v, _) => v.iter().for_each(|(_, _, n)| go(n, b, o)),
            Node::RecordTuple(_, v, _) => v.iter().for_each(|(_, _, _, n)| go(n, b, o)),
            _ => (),
        }
    }
    go(n, &mut b, &mut o);
    (b, o)
}

fn round_trip(g: &mut Gen, n: &Node) {
    let want = (buffered(n), rebuild_hints(n).1);
    let buf = ValueBuf::collect(n).expect("a well-formed value must buffer");
    assert!(buf.is_complete(), "a whole value was buffered but the buffer isn't complete");
    same_out("ValueBuf", rebuild_hints(&buf), &want);
    same_out("ValueBuf::stream_ref", rebuild_ref(&buf), &want);
    same_out("ValueBuf::to_value", rebuild_hints(&buf.to_value()), &want);
    same_out("Value::collect", rebuild_ref(&Value::collect(n).unwrap()), &want);
    same_out("Value::clone", rebuild_hints(&buf.to_value().clone()), &want);
    match g.choose(5) {
        0 => {
            let o = buf.into_owned().unwrap();
            assert!(o.is_complete());
            same_out("ValueBuf::into_owned", rebuild_hints(&o), &want);
            let r = rebuild_ref(&o);
            assert!(borrowed(&r.0).0 == 0, "an owned buffer still borrows: {:?}", r.0);
            same_out("into_value after into_owned", rebuild_hints(&o.into_value()), &want);
        }
        1 => {
            let o = buf.into_value().into_owned().unwrap();
            let r = rebuild_ref(&o);
            assert!(borrowed(&r.0).0 == 0, "an owned value still borrows: {:?}", r.0);
            same_out("Value::into_owned", r, &want);
        }
        2 => {
            let o = ValueBuf::collect_owned(n).unwrap();
            assert!(o.is_complete());
            let r = rebuild_ref(&o);
            same_out("ValueBuf::collect_owned", r, &want);
            same_out("Value::collect_owned", rebuild_hints(&Value::collect_owned(n).unwrap()), &want);
        }
        3 => {
            // a buffer of a buffer, and a buffer that's been used before
            let b2 = ValueBuf::collect(&buf).unwrap();
            same_out("a buffer of a buffer", rebuild_hints(&b2), &want);
            let mut b3 = ValueBuf::new();
            // abandon a value part way through
            let k = g.choose(6);
            for e in [Ev::MapBegin(None), Ev::MapKeyBegin, Ev::TextBegin(None), Ev::Text("left over"), Ev::SeqEnd].iter().take(k) {
                let _ = e.emit(&mut b3);
            }
            b3.clear();
            assert!(!b3.is_complete(), "a cleared buffer holds nothing");
            assert!(same_node(&rebuild(&b3), &Node::Null, FRAG, true), "a cleared buffer streams null");
            sval::stream(&mut b3, n).unwrap();
            assert!(b3.is_complete());
            same_out("a cleared buffer", rebuild_hints(&b3), &want);
        }
        _ => check_errors_propagate(&buf, 60),
    }
}

/// Collects the events left after the defaults of a text-only or binary-only stream.
#[derive(Default)]
struct Texts {
    out: String,
    other: bool,
}
impl Sink for Texts {
    fn ev(&mut self, e: Ev<'_>) -> sval::Result {
        match e {
            Ev::TextBegin(_) | Ev::TextEnd => Ok(()),
            Ev::TextComputed(t) => Ok(self.out.push_str(t)),
            _ => {
                self.other = true;
                sval::error()
            }
        }
    }
}
#[derive(Default)]
struct Bytes {
    out: Vec<u8>,
    other: bool,
}
impl Bytes {
    fn no(&mut self) -> sval::Result {
        self.other = true;
        sval::error()
    }
}
impl<'sval> sval::Stream<'sval> for Bytes {
    fn null(&mut self) -> sval::Result { self.no() }
    fn bool(&mut self, _: bool) -> sval::Result { self.no() }
    fn i64(&mut self, _: i64) -> sval::Result { self.no() }
    fn f64(&mut self, _: f64) -> sval::Result { self.no() }
    fn text_begin(&mut self, _: Option<usize>) -> sval::Result { self.no() }
    fn text_fragment_computed(&mut self, _: &str) -> sval::Result { self.no() }
    fn text_end(&mut self) -> sval::Result { self.no() }
    fn map_begin(&mut self, _: Option<usize>) -> sval::Result { self.no() }
    fn u8(&mut self, v: u8) -> sval::Result { Ok(self.out.push(v)) }
    fn binary_begin(&mut self, _: Option<usize>) -> sval::Result { Ok(()) }
    fn binary_fragment_computed(&mut self, v: &[u8]) -> sval::Result { Ok(self.out.extend_from_slice(v)) }
    fn binary_end(&mut self) -> sval::Result { Ok(()) }
    fn seq_begin(&mut self, _: Option<usize>) -> sval::Result { Ok(()) }
    fn seq_value_begin(&mut self) -> sval::Result { Ok(()) }
    fn seq_value_end(&mut self) -> sval::Result { Ok(()) }
    fn seq_end(&mut self) -> sval::Result { Ok(()) }
}

/// Replace one node of the tree with a failure.
pub fn plant_failure(g: &mut Gen, n: &Node) -> Node {
    let k = g.choose(4);
    match n {
        Node::Seq(v, h) if !v.is_empty() && k > 0 => {
            let i = g.choose(v.len());
            let mut v = v.clone();
            v[i] = plant_failure(g, &v[i]);
            Node::Seq(v, *h)
        }
        Node::Map(v, h) if !v.is_empty() && k > 0 => {
            let i = g.choose(v.len());
            let mut v = v.clone();
            if g.bool() { v[i].0 = plant_failure(g, &v[i].0) } else { v[i].1 = plant_failure(g, &v[i].1) }
            Node::Map(v, *h)
        }
        Node::Record(m, v, h) if !v.is_empty() && k > 0 => {
            let i = g.choose(v.len());
            let mut v = v.clone();
            v[i].2 = plant_failure(g, &v[i].2);
            Node::Record(*m, v, *h)
        }
        Node::Tagged(m, Some(n)) if k > 0 => Node::Tagged(*m, Some(plant_failure(g, n).boxed())),
        Node::Enum(m, Some(n)) if k > 0 => Node::Enum(*m, Some(plant_failure(g, n).boxed())),
        Node::Via(c, n) if k > 0 => Node::Via(*c, plant_failure(g, n).boxed()),
        Node::Hinted(t, n) if k > 0 => Node::Hinted(*t, plant_failure(g, n).boxed()),
        _ => Node::Fail,
    }
}

fn is_begin(e: &Ev<'_>) -> i32 {
    use Ev::*;
    match e {
        MapBegin(..) | MapKeyBegin | MapValueBegin | SeqBegin(..) | SeqValueBegin | EnumBegin(..) | TaggedBegin(..) | RecordBegin(..) | RecordValueBegin(..)
        | TupleBegin(..) | TupleValueBegin(..) | RecordTupleBegin(..) | RecordTupleValueBegin(..) => 1,
        MapEnd | MapKeyEnd | MapValueEnd | SeqEnd | SeqValueEnd | EnumEnd(..) | TaggedEnd(..) | RecordEnd(..) | RecordValueEnd(..) | TupleEnd(..) | TupleValueEnd(..)
        | RecordTupleEnd(..) | RecordTupleValueEnd(..) => -1,
        _ => 0,
    }
}
fn gen_event(g: &mut Gen) -> Ev<'static> {
    match g.choose(4) {
        0 => [Ev::TextBegin(None), Ev::Text("a"), Ev::TextComputed("b"), Ev::TextEnd, Ev::BinaryBegin(None), Ev::Binary(b"a"), Ev::BinaryComputed(b"b"), Ev::BinaryEnd][g.choose(8)],
        1 => [Ev::SeqBegin(None), Ev::SeqValueBegin, Ev::SeqValueEnd, Ev::SeqEnd, Ev::MapBegin(Some(1)), Ev::MapKeyBegin, Ev::MapKeyEnd, Ev::MapValueBegin, Ev::MapValueEnd, Ev::MapEnd]
            [g.choose(10)],
        _ => core_props::any_event(g),
    }
}

/// A stream that accepts anything.
pub struct Anything;
impl Sink for Anything {
    fn ev(&mut self, _: Ev<'_>) -> sval::Result {
        Ok(())
    }
}
stream_via_ev!([] Anything);

/// Feed arbitrary calls to a buffer and check what it says about itself.
fn arbitrary_calls(evs: &[Ev<'static>]) {
    // what a buffer was used for before it was cleared makes no difference
    for cut in 0..evs.len().min(4) {
        let mut buf = ValueBuf::new();
        for e in &evs[..cut] {
            let _ = e.emit(&mut buf);
        }
        buf.clear();
        assert!(!buf.is_complete());
        arbitrary_calls_on(buf, &evs[cut..]);
    }
    arbitrary_calls_on(ValueBuf::new(), evs);
}
fn arbitrary_calls_on<'a>(mut buf: ValueBuf<'a>, evs: &'a [Ev<'static>]) {
    let mut depth = 0i64;
    let mut parts = 0usize;
    let mut open_text = false;
    // what the last part is: 0 none, 1 text, 2 binary, 3 anything else
    let mut last = 0;
    for (k, e) in evs.iter().enumerate() {
        let r = e.emit(&mut buf);
        let want = match e {
            Ev::Text(_) | Ev::TextComputed(_) => last == 1,
            Ev::Binary(_) | Ev::BinaryComputed(_) => last == 2,
            e if is_begin(e) < 0 => depth > 0,
            _ => true,
        };
        assert!(r.is_ok() == want, "call {} {:?}: got {:?}, wanted success: {}", k, e, r, want);
        match e {
            Ev::TextBegin(_) => {
                open_text = true;
                last = 1;
                parts += 1;
            }
            Ev::BinaryBegin(_) => {
                open_text = true;
                last = 2;
                parts += 1;
            }
            Ev::TextEnd | Ev::BinaryEnd => open_text = false,
            Ev::Text(_) | Ev::TextComputed(_) | Ev::Binary(_) | Ev::BinaryComputed(_) => (),
            e => match is_begin(e) {
                -1 => depth = (depth - 1).max(0),
                b => {
                    depth += b as i64;
                    parts += 1;
                    last = 3;
                }
            },
        }
        assert!(buf.is_complete() == (depth == 0 && parts > 0 && !open_text), "after call {} the buffer is wrong about being complete", k);
        if r.is_err() {
            let _ = sval::stream(&mut Anything, &buf);
            assert!(buf.into_err().is_some(), "the reason a call failed is lost");
            return;
        }
    }
    let _ = sval::stream(&mut Anything, &buf);
    let _ = sval::stream(&mut Anything, &buf.to_value());
    let o = buf.into_owned().unwrap();
    let _ = sval::stream(&mut Anything, &o);
    assert!(o.is_complete() == (depth == 0 && parts > 0 && !open_text));
}

/// The model of a fragment buffer: the bytes, and whether they're still one borrowed slice.
fn fragments(g: &mut Gen) {
    let mut t = TextBuf::new();
    let mut b = BinaryBuf::new();
    let mut want: Vec<u8> = Vec::new();
    let mut ptr: Option<*const u8> = None;
    let mut owned = false;
    let n = g.choose(6);
    for _ in 0..n {
        let f = gen_str(g);
        match g.choose(6) {
            0 | 1 | 2 => {
                t.push_fragment(f).unwrap();
                b.push_fragment(f.as_bytes()).unwrap();
                if want.is_empty() {
                    owned = false;
                    ptr = Some(f.as_ptr());
                } else {
                    owned = true;
                }
                want.extend_from_slice(f.as_bytes());
            }
            3 => {
                t.push_fragment_computed(f).unwrap();
                b.push_fragment_computed(f.as_bytes()).unwrap();
                owned = true;
                want.extend_from_slice(f.as_bytes());
            }
            4 => {
                t.push_display(format_args!("{}{}", f, 1)).unwrap();
                b.push_fragment_computed(f.as_bytes()).unwrap();
                b.push_fragment_computed(b"1").unwrap();
                owned = true;
                want.extend_from_slice(f.as_bytes());
                want.push(b'1');
            }
            _ => {
                t.clear();
                b.clear();
                want.clear();
                owned = false;
                ptr = None;
            }
        }
        assert!(t.as_str().as_bytes() == &*want, "text buffer holds {:?}, not {:?}", t.as_str(), want);
        assert!(b.as_slice() == &*want, "binary buffer holds {:?}, not {:?}", b.as_slice(), want);
        assert!(AsRef::<str>::as_ref(&t) == t.as_str() && AsRef::<[u8]>::as_ref(&b) == b.as_slice());
        assert!(t.clone() == t && b.clone() == b);
        // never claim to be borrowed when the contents were copied
        if let Some(s) = t.as_borrowed_str() {
            assert!(s.as_bytes() == &*want, "the borrowed text isn't the text");
            assert!(!owned || want.is_empty());
        }
        if let Some(s) = b.as_borrowed_slice() {
            assert!(s == &*want, "the borrowed bytes aren't the bytes");
            assert!(!owned || want.is_empty());
        }
        if !owned {
            if let Some(p) = ptr {
                assert!(t.as_borrowed_str().map(|s| s.as_ptr()) == Some(p), "a single borrowed fragment was copied");
                assert!(b.as_borrowed_slice().map(|s| s.as_ptr()) == Some(p), "a single borrowed fragment was copied");
            }
        }
        // streamed either way they're one value with exactly the contents
        let s = intern(std::str::from_utf8(&want).unwrap());
        let tn = Node::Text(vec![(s, false)], Some(s.len()));
        let bn = Node::Binary(vec![(s.as_bytes(), false)], Some(s.len()));
        assert!(same_node(&rebuild(&t), &tn, FRAG, true));
        assert!(same_node(&rebuild_ref(&t).0, &tn, FRAG, true));
        assert!(same_node(&rebuild(&b), &bn, FRAG, true));
        assert!(same_node(&rebuild_ref(&b).0, &bn, FRAG, true));
        check_errors_propagate(&t, 5);
        check_errors_propagate(&b, 5);
    }
    let f = gen_str(g);
    assert!(TextBuf::from(f).as_borrowed_str().map(|s| s.as_ptr()) == Some(f.as_ptr()) && TextBuf::from(f).as_str() == f);
    assert!(BinaryBuf::from(f.as_bytes()).as_borrowed_slice() == Some(f.as_bytes()));
    assert!(TextBuf::collect_display(f).unwrap().as_str() == f);
}

fn collect_fragments(n: &Node) {
    let mut m = Min(Texts::default());
    let r = sval::Value::stream(n, &mut m);
    match TextBuf::collect(n) {
        Ok(t) => {
            assert!(r.is_ok(), "a value that isn't text was collected as {:?}", t.as_str());
            assert!(t.as_str() == m.0.out, "collected {:?} instead of {:?}", t.as_str(), m.0.out);
        }
        Err(_) => assert!(r.is_err(), "text {:?} couldn't be collected", m.0.out),
    }
    let mut m = Bytes::default();
    let r = sval::Value::stream(n, &mut m);
    match BinaryBuf::collect(n) {
        Ok(t) => {
            assert!(r.is_ok(), "a value that isn't binary was collected as {:?}", t.as_slice());
            assert!(t.as_slice() == &*m.out, "collected {:?} instead of {:?}", t.as_slice(), m.out);
        }
        Err(_) => assert!(r.is_err(), "bytes {:?} couldn't be collected", m.out),
    }
}

harnesses! {
    /// A buffered value replays as the value.
    ["C05", none, unwind 1, random 20000, exhaustive false, "trees up to depth 3 and width 3"]
    fn buf_tree(g) {
        let n = gen_node(g, SHAPE);
        round_trip(g, &n);
    }
    /// The same for values whose root is a tag, record, tuple or enum.
    ["C05", none, unwind 1, random 10000, exhaustive false, "trees up to depth 3 and width 3"]
    fn buf_tagged(g) {
        let n = gen_variant(g, Shape { depth: 2, empty_tagged: true, ..SHAPE }).unwrap_or(Node::Null);
        round_trip(g, &n);
    }
    /// Every scalar.
    ["C05", none, unwind 1, random 5000, exhaustive false, "all scalar kinds, boundary values"]
    fn buf_scalar(g) {
        let n = gen_scalar(g);
        round_trip(g, &n);
    }
    /// Arbitrary, mostly malformed, sequences of calls.
    ["C06", none, unwind 1, random 40000, exhaustive false, "up to 12 calls"]
    fn buf_calls(g) {
        let n = g.choose(13);
        let v: Vec<_> = (0..n).map(|_| gen_event(g)).collect();
        arbitrary_calls(&v);
    }
    /// All short sequences of text, binary and sequence calls.
    ["C06", none, unwind 1, random 30000, exhaustive true, "all sequences of up to 4 calls from 10 kinds"]
    fn buf_calls_short(g) {
        let all = [Ev::TextBegin(None), Ev::Text("a"), Ev::TextEnd, Ev::BinaryBegin(None), Ev::Binary(b"a"), Ev::BinaryEnd, Ev::SeqBegin(None), Ev::SeqEnd, Ev::Null, Ev::TextComputed("c")];
        let n = g.choose(5);
        let v: Vec<_> = (0..n).map(|_| all[g.choose(10)]).collect();
        arbitrary_calls(&v);
    }
    /// A value that fails part way through is an error, not a buffer.
    ["C06", none, unwind 1, random 20000, exhaustive false, "trees up to depth 3 with one failing node"]
    fn buf_failing_value(g) {
        let n = gen_node(g, SHAPE);
        let n = plant_failure(g, &n);
        assert!(ValueBuf::collect(&n).is_err(), "a failed value was buffered");
        assert!(ValueBuf::collect_owned(&n).is_err(), "a failed value was buffered");
        assert!(Value::collect(&n).is_err(), "a failed value was buffered");
        assert!(Value::collect_owned(&n).is_err(), "a failed value was buffered");
        assert!(TextBuf::collect(&n).is_err(), "a failed value was buffered as text");
        assert!(BinaryBuf::collect(&n).is_err(), "a failed value was buffered as binary");
    }
    /// A text or binary value that fails between fragments.
    ["C06", none, unwind 1, random 2000, exhaustive true, "up to 3 fragments"]
    fn buf_failing_text(g) {
        let mut v = vec![if g.bool() { Ev::TextBegin(None) } else { Ev::BinaryBegin(None) }];
        for _ in 0..g.choose(4) {
            v.push(match (g.bool(), v[0]) { (false, Ev::TextBegin(_)) => Ev::Text("a"), (true, Ev::TextBegin(_)) => Ev::TextComputed("a"), (false, _) => Ev::Binary(b"a"), (true, _) => Ev::BinaryComputed(b"a") });
        }
        v.push(Ev::Fail);
        let s = Script(&v);
        assert!(ValueBuf::collect(&s).is_err() && TextBuf::collect(&s).is_err() && BinaryBuf::collect(&s).is_err());
    }
    /// Any mix of borrowed, computed and displayed fragments.
    ["C07", none, unwind 1, random 20000, exhaustive false, "up to 5 operations"]
    fn frag_ops(g) { fragments(g) }
    /// Collecting text and binary from any value.
    ["C07", none, unwind 1, random 20000, exhaustive false, "trees up to depth 2"]
    fn frag_collect(g) {
        let n = match g.choose(4) {
            0 => { let f = gen_text(g); Node::Text(f, None) }
            1 => { let c = g.choose(4); Node::Binary((0..c).map(|_| (BINS[g.choose(BINS.len())], g.bool())).collect(), None) }
            2 => { let c = g.choose(4); Node::Seq((0..c).map(|_| Node::Num(Ev::U8(g.u8()))).collect(), None) }
            _ => gen_node(g, Shape { depth: 2, ..SHAPE }),
        };
        let n = match g.choose(4) { 0 => Node::Tagged(gen_meta(g), Some(n.boxed())), 1 => Node::Via(g.bool(), n.boxed()), _ => n };
        collect_fragments(&n);
    }
}
